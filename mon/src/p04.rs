//! Workloads for the sanitizers, and for the deadlock watchdog
//!
//! Nothing here may synchronise the threads of the code under test: that would hide its races. So
//! all that is observed inside of a render goes through relaxed atomics.
use crate::core::*;
use crate::geom::*;
use crate::p16::{scratch_dir, Scratch};
use crate::p26::random_world;
use crate::scene::*;
use image::{Rgb, RgbImage};
use solstrale::geo::transformation::NopTransformer;
use solstrale::geo::vec3::Vec3;
use solstrale::geo::Uv;
use solstrale::hittable::{Hittable, Hittables, Sphere, Triangle};
use solstrale::loader::obj::Obj;
use solstrale::loader::Loader;
use solstrale::material::texture::{ImageMap, SolidColor, Textures};
use solstrale::material::{Blend, Dielectric, Lambertian, Materials, Metal};
use solstrale::post::*;
use solstrale::renderer::shader::*;
use solstrale::renderer::{RenderConfig, RenderImageStrategy, Renderer, Scene};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::mpsc::channel;
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const RULE: &str = "The public API is used from many threads: hierarchies are built and shared, models and images loaded at the same time, scenes with shared textures, fog, glass, normal maps and lights of all shapes rendered by 1 to 8 workers, several renders at once (own scenes, or the same renderer), inside of a thread pool of one to four threads, with aborts and receivers that go away, filters on large images, random worlds. Delays at the observation points, made with relaxed atomics only, vary the schedules. The same runs under ThreadSanitizer (data races), AddressSanitizer with the checks of all unsafe preconditions, and the Miri interpreter (all undefined behaviour); without sanitizer, a watchdog looks for processes that stand still. Non-trivial: executions of a scenario; counted by the order in which the rows of the renders were merged.";

/// Sum over what happened in which order, without synchronising anything
static ORDER: AtomicU64 = AtomicU64::new(0);
static PRINT: AtomicU64 = AtomicU64::new(0);
static EVENTS: AtomicU64 = AtomicU64::new(0);
static SHAKE: AtomicUsize = AtomicUsize::new(0);
static TICK: AtomicU64 = AtomicU64::new(1);

fn point(what: &'static str, sample: u32, row: usize) {
    let n = ORDER.fetch_add(1, Relaxed);
    EVENTS.fetch_add(1, Relaxed);
    if what == "row_merged" {
        let h = Rng::new(n ^ ((row as u64) << 40) ^ ((sample as u64) << 20)).next();
        PRINT.fetch_add(h, Relaxed);
    }
    let x = TICK.fetch_add(0x9E3779B97F4A7C15, Relaxed);
    let z = (x ^ (x >> 29)).wrapping_mul(0xBF58476D1CE4E5B9) >> 32;
    match SHAKE.load(Relaxed) {
        1 => {
            for _ in 0..z % 4 {
                std::thread::yield_now();
            }
        }
        2 if z % 3 == 0 => std::thread::sleep(Duration::from_micros(z % 200)),
        3 if row == 1 => std::thread::sleep(Duration::from_micros(500)),
        _ => {}
    }
}

/// How much this execution can stand
#[derive(Clone, Copy, PartialEq)]
enum Size {
    Tiny,
    Full,
}

fn size() -> Size {
    if cfg!(miri) {
        Size::Tiny
    } else {
        Size::Full
    }
}

fn pick(tiny: i64, full: i64) -> i64 {
    if size() == Size::Tiny {
        tiny
    } else {
        full
    }
}

fn image(r: &mut Rng, w: u32, h: u32) -> Arc<RgbImage> {
    Arc::new(RgbImage::from_fn(w, h, |_, _| Rgb([r.below(256) as u8, r.below(256) as u8, 128 + r.below(128) as u8])))
}

/// All materials, with the same images everywhere
fn materials(r: &mut Rng, img: &Arc<RgbImage>) -> Vec<Materials> {
    let tex = || -> Textures { ImageMap::new(img.clone()) };
    vec![
        Lambertian::new(tex(), Some(tex())),
        Metal::new(tex(), Some(tex()), 0.2),
        Dielectric::new(SolidColor::new(1., 1., 1.), Some(tex()), 1.5),
        Blend::new(matte(rand_color(r)), Metal::new(tex(), None, 0.), 0.5),
        light(v(3., 3., 3.)),
    ]
}

fn objects(r: &mut Rng, n: usize, img: &Arc<RgbImage>) -> Vec<Hittables> {
    let mats = materials(r, img);
    let mut list = vec![];
    for i in 0..n {
        let m = if i == 0 { mats[4].clone() } else { r.pick(&mats).clone() };
        let shape = rand_shape(r, rand_in(&mut r.clone(), 4.), 1.);
        r.next();
        match (&shape, r.below(4)) {
            (Shape::Tri(a, b, c), 0 | 1) => list.push(Triangle::new_with_tex_coords(
                a.s(),
                b.s(),
                c.s(),
                Uv::new(0., 0.),
                Uv::new(2., 0.1),
                Uv::new(0.3, -1.),
                m,
                &NopTransformer(),
            )),
            (_, 2) if i > 0 => list.push(solstrale::hittable::ConstantMedium::new(build(&shape, m), 1., Vec3::new(1., 0.5, 0.2))),
            _ => list.push(build(&shape, m)),
        }
    }
    list
}

fn shader(r: &mut Rng) -> Shaders {
    match r.below(6) {
        0 => AlbedoShader::new(),
        1 => NormalShader::new(),
        2 => SimpleShader::new(),
        _ => PathTracingShader::new(r.int(1, 6) as u32),
    }
}

fn post(r: &mut Rng) -> Vec<PostProcessors> {
    match r.below(6) {
        // With the feature enabled these also get to see albedo and normals
        4 => vec![OidnPostProcessor::new()],
        5 => vec![BloomPostProcessor::new(0.1, None, Some(2.)).unwrap().into(), OidnPostProcessor::new()],
        0 => vec![BloomPostProcessor::new(0.2, Some(0.3), None).unwrap().into()],
        1 => vec![
            BloomPostProcessor::new(0.1, None, Some(2.)).unwrap().into(),
            NopPostProcessor::new(),
            BloomPostProcessor::new(0.5, None, None).unwrap().into(),
        ],
        2 => vec![NopPostProcessor::new()],
        _ => vec![],
    }
}

fn a_scene(r: &mut Rng, img: &Arc<RgbImage>, spp: u32) -> Scene {
    let n = r.int(1, pick(3, 30)) as usize;
    let world = bvh(objects(r, n, img));
    let top = pick(4, 24);
    let mut cam = camera(v(0., 1., 9.), v(0., 0., 0.), 50.);
    if r.chance(0.3) {
        cam.aperture_size = 0.5;
    }
    let background = rand_color(r);
    let (mut width, mut height) = (r.int(1, top) as usize, r.int(1, top) as usize);
    if spp < 4 && r.chance(0.2) {
        // Long and narrow
        let long = r.int(1, pick(4, 400)) as usize;
        (width, height) = if r.chance(0.5) { (long, 1 + width % 4) } else { (1 + width % 4, long) };
    }
    let cfg = RenderConfig {
        width,
        height,
        samples_per_pixel: spp,
        shader: shader(r),
        post_processors: post(r),
        render_image_strategy: match r.below(3) {
            0 => RenderImageStrategy::EverySample,
            1 => RenderImageStrategy::OnlyFinal,
            _ => RenderImageStrategy::Interval(Duration::from_micros(300)),
        },
    };
    scene(world, cam, background, cfg)
}

fn few(r: &mut Rng) -> u32 {
    r.int(1, pick(2, 8)) as u32
}

/// Waits for threads that may not end on their own
fn finish(what: &str, text: &str, list: Vec<std::thread::JoinHandle<Res>>) -> Res {
    let started = Instant::now();
    let limit = Duration::from_secs(if cfg!(miri) { 3000 } else { 180 });
    let mut still = (Instant::now(), busy_time());
    loop {
        if list.iter().all(|t| t.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_micros(if cfg!(miri) { 20000 } else { 200 }));
        if !cfg!(miri) && still.0.elapsed() > Duration::from_secs(15) {
            let now = busy_time();
            // Nothing sleeps for long here: who does not compute, waits for ever
            if now - still.1 < Duration::from_millis(100) {
                return Err(format!("{what} stands still: nothing was computed for 15 s, {text}"));
            }
            still = (Instant::now(), now);
        }
        if started.elapsed() > limit {
            return Err(format!("{what} does not finish within {limit:?}, {text}"));
        }
    }
    for t in list {
        t.join().map_err(|_| format!("{what} panics, {text}"))??;
    }
    Ok(())
}

/// Processor time of the whole process, all threads
fn busy_time() -> Duration {
    if cfg!(miri) {
        return Duration::ZERO;
    }
    let text = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = text.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let ticks = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    Duration::from_millis((ticks(11) + ticks(12)) * 10)
}

/// Runs on a thread of its own. A panic there is reported, with what it says
fn spawn(f: impl FnOnce() -> Res + Send + 'static) -> std::thread::JoinHandle<Res> {
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || no_panic(f).unwrap_or_else(|p| Err(format!("panic: {p}"))))
        .expect("thread starts")
}

/// Who watches a render, and what it does
#[derive(Clone, Copy, Debug)]
enum Consumer {
    ReadsAll,
    ReadsAfterwards,
    AbortsAfter(u32),
    GoesAwayAfter(u32),
    DropsAbort,
}

fn consumer(r: &mut Rng) -> Consumer {
    match r.below(8) {
        0 => Consumer::AbortsAfter(r.below(3) as u32),
        1 => Consumer::GoesAwayAfter(r.below(3) as u32),
        2 => Consumer::DropsAbort,
        3 => Consumer::ReadsAfterwards,
        _ => Consumer::ReadsAll,
    }
}

/// Renders with a consumer on another thread
fn watched(render: impl FnOnce(&std::sync::mpsc::Sender<solstrale::renderer::RenderProgress>, &std::sync::mpsc::Receiver<bool>) -> Result<(), String> + Send + 'static, how: Consumer, spp: u32) -> Vec<std::thread::JoinHandle<Res>> {
    let (tx, rx) = channel();
    let (abort_tx, abort_rx) = channel();
    let producer = spawn(move || {
        let res = render(&tx, &abort_rx);
        match (how, res) {
            (Consumer::GoesAwayAfter(_), _) => Ok(()),
            (_, res) => res,
        }
    });
    let reader = spawn(move || {
        let mut seen = 0;
        let mut abort_tx = Some(abort_tx);
        match how {
            Consumer::DropsAbort => drop(abort_tx.take()),
            Consumer::AbortsAfter(0) => {
                let _ = abort_tx.as_ref().unwrap().send(true);
            }
            Consumer::GoesAwayAfter(0) => return Ok(()),
            Consumer::ReadsAfterwards => std::thread::sleep(Duration::from_millis(1)),
            _ => (),
        }
        for p in rx.iter() {
            seen += 1;
            if let Some(i) = p.render_image {
                // Touches all of the image
                std::hint::black_box(i.pixels().map(|p| p[0] as u64).sum::<u64>());
            }
            match how {
                Consumer::AbortsAfter(k) if k == seen => {
                    let _ = abort_tx.as_ref().unwrap().send(true);
                }
                Consumer::GoesAwayAfter(k) if k == seen => return Ok(()),
                _ => (),
            }
        }
        match how {
            Consumer::AbortsAfter(_) => Ok(()),
            _ if seen == spp => Ok(()),
            _ => Err(format!("{seen} of {spp} reports")),
        }
    });
    vec![producer, reader]
}

fn render_one(r: &mut Rng, img: &Arc<RgbImage>) -> Vec<std::thread::JoinHandle<Res>> {
    let spp = few(r);
    let s = a_scene(r, img, spp);
    watched(move |tx, abort| solstrale::ray_trace(s, tx, abort).map_err(|e| e.to_string()), consumer(r), spp)
}

fn write_model(r: &mut Rng, dir: &std::path::Path) -> String {
    let n = r.int(1, pick(3, 60));
    let mut obj = String::from("mtllib m.mtl\n");
    for _ in 0..n + 2 {
        let p = rand_in(r, 3.);
        obj.push_str(&format!("v {} {} {}\nvt {} {}\n", p.0, p.1, p.2, r.f(), r.f()));
    }
    for i in 1..=n {
        if i % 3 == 1 {
            obj.push_str(&format!("usemtl m{}\n", i % 2));
        }
        obj.push_str(&format!("f {}/{} {}/{} {}/{}\n", i, i, i + 1, i + 1, i + 2, i + 2));
    }
    let _ = std::fs::write(dir.join("m.obj"), obj);
    let _ = std::fs::write(dir.join("m.mtl"), "newmtl m0\nKd 0.5 0.5 0.5\nmap_Kd c.bmp\nmap_Bump h.bmp\nnewmtl m1\nKd 1 0 0\n");
    let (w, h) = (r.int(1, pick(3, 20)) as u32, r.int(1, pick(3, 20)) as u32);
    let _ = image(r, w, h).save(dir.join("c.bmp"));
    let grey = RgbImage::from_fn(h, w, |x, y| Rgb([(x * 7 + y * 3) as u8; 3]));
    let _ = grey.save(dir.join("h.bmp"));
    format!("{}/", dir.display())
}

/// Answers of a world, that must be the same for all who ask
fn answers(world: &Hittables, seed: u64, n: usize) -> u64 {
    let mut r = Rng::new(seed);
    let mut h = 0;
    for _ in 0..n {
        let ray = ray(rand_in(&mut r, 6.), rand_dir(&mut r));
        if let Some(rec) = world.hit(&ray, &ahead()) {
            h = Rng::new(h ^ rec.ray_length.to_bits() ^ (rec.uv.u.to_bits() as u64)).next();
        }
    }
    h
}

pub fn run(run: &Run) {
    solstrale::verif::install(point);
    let n = if cfg!(miri) { 24 } else { run.n(400, 6000) };
    let threads = if cfg!(miri) { 1 } else { 2 };
    run.cases_on("threads", n, threads, |c| {
        let r = &mut c.rng;
        SHAKE.store(r.below(4) as usize, Relaxed);
        crate::hooks::workers(Some(if cfg!(miri) { r.int(2, 3) as u64 } else { *r.pick(&[1, 2, 3, 4, 8]) }));
        let img = {
            let (w, h) = (r.int(1, pick(3, 40)) as u32, r.int(1, pick(3, 40)) as u32);
            image(r, w, h)
        };
        let kind = c.index % 9;
        let name = ["a render", "several renders", "the same renderer", "hierarchies", "models", "inside a pool", "random world", "large filter", "textures"][kind as usize];
        let began = Instant::now();
        let text = format!("case {} of seed {}", c.index, c.run.seed);
        let res = match kind {
            0 => {
                let list = render_one(r, &img);
                finish(name, &text, list)
            }
            1 => {
                let list = (0..pick(2, 4)).flat_map(|_| render_one(r, &img)).collect();
                finish(name, &text, list)
            }
            2 => {
                let spp = few(r);
                let s = a_scene(r, &img, spp);
                let renderer = Arc::new(Renderer::new(s).map_err(|e| e.to_string())?);
                let list = (0..pick(2, 3))
                    .flat_map(|_| {
                        let renderer = renderer.clone();
                        watched(move |tx, abort| renderer.render(tx, abort).map_err(|e| e.to_string()), consumer(r), spp)
                    })
                    .collect();
                finish(name, &text, list)
            }
            3 => {
                let many = pick(12, 600) as u64;
                let mut list = vec![];
                // Built on several threads, and then shared
                for _ in 0..2 {
                    let k = 3 + r.below(many) as usize;
                    let (objects, seed) = (solid(r, k), r.next());
                    list.push(spawn(move || {
                        let world = Arc::new(bvh(objects));
                        let rays = pick(3, 300) as usize;
                        let first = answers(&world, seed, rays);
                        let ask = |w: Arc<Hittables>| {
                            spawn(move || {
                                let got = answers(&w, seed, rays);
                                ensure!(got == first, "answers differ between threads");
                                let _ = w.bounding_box().center();
                                std::hint::black_box(w.get_lights().len());
                                Ok(())
                            })
                        };
                        let asking: Vec<_> = (0..pick(2, 4)).map(|_| ask(world.clone())).collect();
                        let copy = world.as_ref().clone();
                        ensure!(answers(&copy, seed, rays) == first, "a copy answers differently");
                        finish("asking", "", asking)
                    }));
                }
                finish(name, &text, list)
            }
            4 => {
                let dir = Scratch(scratch_dir("c04", c));
                let r = &mut c.rng;
                let path = write_model(r, &dir.0);
                let list = (0..pick(2, 4))
                    .map(|_| {
                        let path = path.clone();
                        spawn(move || {
                            let m = Obj::new(&path, "m.obj")
                                .load(&NopTransformer(), Some(matte(v(1., 1., 1.))))
                                .map_err(|e| e.to_string())?;
                            std::hint::black_box(answers(&m, 1, pick(3, 100) as usize));
                            Ok(())
                        })
                    })
                    .collect();
                finish(name, &text, list)
            }
            5 => {
                let spp = few(r);
                let scenes: Vec<Scene> = (0..pick(1, 3)).map(|_| a_scene(r, &img, spp)).collect();
                let threads = r.int(1, 4) as usize;
                let run = spawn(move || {
                    let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().map_err(|e| e.to_string())?;
                    let (tx, rx) = channel();
                    let k = scenes.len();
                    pool.scope(|s| {
                        for sc in scenes {
                            let tx = tx.clone();
                            s.spawn(move |_| {
                                let (_keep, abort) = channel();
                                let _ = solstrale::ray_trace(sc, &tx, &abort);
                            });
                        }
                    });
                    drop(tx);
                    let got = rx.iter().count();
                    ensure!(got == k * spp as usize, "{got} reports of {k} renders with {spp} samples");
                    Ok(())
                });
                finish(name, &text, vec![run])
            }
            6 => {
                let (world, _, _, _) = random_world(r, 0.1, 1., true);
                let (w, h) = (r.int(1, pick(2, 16)) as usize, r.int(1, pick(2, 16)) as usize);
                let spp = few(r);
                let s = scene(world, camera(v(0., 0., 9.), v(0., 0., 0.), 60.), rand_color(r), config(w, h, spp, PathTracingShader::new(pick(3, 5) as u32)));
                let list = watched(move |tx, abort| solstrale::ray_trace(s, tx, abort).map_err(|e| e.to_string()), Consumer::ReadsAll, spp);
                finish(name, &text, list)
            }
            7 => {
                let (w, h) = match r.below(3) {
                    0 => (r.int(1, pick(4, 12)) as usize, r.int(1, pick(4, 1200)) as usize),
                    1 => (r.int(1, pick(4, 1200)) as usize, r.int(1, pick(4, 12)) as usize),
                    _ => (r.int(1, pick(4, 160)) as usize, r.int(1, pick(4, 160)) as usize),
                };
                let sums: Arc<Vec<Vec3>> = Arc::new((0..w * h).map(|_| (rand_color(r) * 3.).s()).collect());
                let f = *r.pick(&[0., 0.05, 0.3, 0.5]);
                let bloom: Arc<PostProcessors> = Arc::new(BloomPostProcessor::new(f, Some(0.4), None).unwrap().into());
                let list = (0..2)
                    .map(|i| {
                        let (sums, bloom) = (sums.clone(), bloom.clone());
                        spawn(move || {
                            if i == 0 {
                                let im = bloom.post_process(&sums, &[], &[], w as u32, h as u32, 2).map_err(|e| e.to_string())?;
                                ensure!(im.dimensions() == (w as u32, h as u32), "wrong size");
                            } else {
                                let o = bloom
                                    .intermediate_post_process(&sums, &[], &[], w as u32, h as u32, 2)
                                    .map_err(|e| e.to_string())?;
                                ensure!(o.len() == w * h, "wrong size");
                            }
                            Ok(())
                        })
                    })
                    .collect();
                finish(name, &text, list)
            }
            _ => {
                use solstrale::material::texture::Texture;
                let tex: Arc<Textures> = Arc::new(ImageMap::new(img.clone()));
                let list = (0..pick(2, 4))
                    .map(|_| {
                        let tex = tex.clone();
                        let mut r = Rng::new(r.next());
                        spawn(move || {
                            for i in 0..pick(30, 3000) {
                                let mut t = || match (i, r.below(12)) {
                                    (_, 0) => f32::NAN,
                                    (_, 1) => f32::INFINITY,
                                    (_, 2) => f32::NEG_INFINITY,
                                    (_, 3) => f32::MAX,
                                    (_, 4) => 1.,
                                    (_, 5) => -f32::MIN_POSITIVE,
                                    (_, 6) => 1. - f32::EPSILON / 2.,
                                    (_, 7) => 1e30,
                                    _ => r.range(-3., 3.) as f32,
                                };
                                std::hint::black_box(tex.color(Uv::new(t(), t())));
                            }
                            Ok(())
                        })
                    })
                    .collect();
                finish(name, &text, list)
            }
        };
        res.map_err(|e| format!("{name}: {e}"))?;
        if std::env::var("MON_SLOW").is_ok() && began.elapsed() > Duration::from_secs(2) {
            eprintln!("{name} case {} took {:?}", c.index, began.elapsed());
        }
        c.eval();
        c.count(name);
        c.distinct(PRINT.load(Relaxed) ^ c.seed);
        c.sample(|| format!("{name}, {} events so far", EVENTS.load(Relaxed)));
        Ok(())
    });
    crate::hooks::workers(None);
    run.add("events at the observation points", EVENTS.load(Relaxed));
}

/// Objects that answer the same each time
fn solid(r: &mut Rng, n: usize) -> Vec<Hittables> {
    (0..n)
        .map(|i| {
            if r.chance(0.1) {
                return Sphere::new(Vec3::new(0., 0., 0.), 0.3, id_mat(i));
            }
            let at = rand_in(r, 5.);
            build(&rand_shape(r, at, 0.6), id_mat(i))
        })
        .collect()
}
