//! Pixels are the mean of their own samples
use crate::core::*;
use crate::geom::*;
use crate::hooks::*;
use crate::p23::encode;
use crate::scene::*;
use image::{Rgb, RgbImage};
use solstrale::camera::CameraConfig;
use solstrale::geo::transformation::NopTransformer;
use solstrale::hittable::{Hittables, Quad};
use solstrale::material::texture::ImageMap;
use solstrale::material::*;
use solstrale::post::NopPostProcessor;
use solstrale::renderer::shader::*;
use solstrale::renderer::{RenderImageStrategy, RenderProgress, Renderer, Scene};
use std::collections::HashMap;
use std::sync::mpsc::channel;
use std::sync::Arc;

pub const RULE: &str = "A wall is placed so that each pixel's cell of the view sees its own colour (as texture of a matte or mirror, or as one light per cell). Renders of all kinds of sizes, samples, cameras, shaders, worker counts and injected delays are observed, several at the same time, and each pixel of each reported image is compared with the encoded mean of its own samples. Walls that are randomly black or white show that each further image contains exactly one more sample per pixel; walls with gradients or small spots in each cell that samples are spread evenly over the cell. Non-trivial: each pixel of each image; counted by scene, sample count and pixel.";

/// Where the camera is, and a quad that covers the cells of all pixels
#[derive(Clone, Debug)]
pub struct View {
    pub w: usize,
    pub h: usize,
    from: V,
    at: V,
    up: V,
    fov: f64,
    /// Corner, right and up edge of the part of the wall seen by all the cells
    pub q: V,
    pub right: V,
    pub upward: V,
}

pub fn cells(n: usize) -> f64 {
    if n == 1 {
        1.
    } else {
        n as f64 / (n as f64 - 1.)
    }
}

impl View {
    pub fn new(r: &mut Rng, w: usize, h: usize) -> View {
        let (from, dir) = if r.chance(0.3) {
            (v(0., 0., 0.), v(0., 0., -1.))
        } else {
            (rand_in(r, 10.), rand_dir(r))
        };
        let mut up = if r.chance(0.5) { v(0., 1., 0.) } else { rand_dir(r) * r.log(0.1, 10.) };
        if up.unit().cross(dir).len() < 0.1 {
            up = frame(dir).0;
        }
        let fov = r.range(5., 120.);
        let look = r.log(0.1, 100.);
        let dist = r.log(0.5, 20.);
        let right = dir.cross(up).unit();
        let upward = right.cross(dir);
        let height = 2. * (fov.to_radians() / 2.).tan() * dist;
        let width = height * w as f64 / h as f64;
        View {
            w,
            h,
            from,
            at: from + dir * look,
            up,
            fov,
            q: from + dir * dist - right * (width / 2.) - upward * (height / 2.),
            right: right * (width * cells(w)),
            upward: upward * (height * cells(h)),
        }
    }
    pub fn from(&self) -> V {
        self.from
    }
    pub fn at(&self) -> V {
        self.at
    }
    pub fn camera(&self) -> CameraConfig {
        CameraConfig {
            vertical_fov_degrees: self.fov,
            aperture_size: 0.,
            look_from: self.from.s(),
            look_at: self.at.s(),
            up: self.up.s(),
        }
    }
    pub fn wall(&self, mat: Materials) -> Hittables {
        Quad::new(self.q.s(), self.right.s(), self.upward.s(), mat, &NopTransformer())
    }
    pub fn light_away(&self) -> Hittables {
        build(
            &Shape::Sphere(self.from - (self.at - self.from).unit() * 1e4, 1.),
            light(v(1., 1., 1.)),
        )
    }
    /// The wall of one pixel of the image
    pub fn cell(&self, x: usize, y: usize, mat: Materials) -> Hittables {
        let a = self.right / self.w as f64;
        let b = self.upward / self.h as f64;
        let q = self.q + a * x as f64 + b * (self.h - 1 - y) as f64;
        Quad::new(q.s(), a.s(), b.s(), mat, &NopTransformer())
    }
}

/// Colours that differ by enough to tell one sample among many
fn cell_image(r: &mut Rng, w: usize, h: usize) -> RgbImage {
    RgbImage::from_fn(w as u32, h as u32, |_, _| {
        Rgb([r.int(77, 250) as u8, r.int(77, 250) as u8, r.int(77, 250) as u8])
    })
}

struct Setup {
    view: View,
    kind: u64,
    /// Expected colour of each pixel
    colors: Vec<V>,
    background: V,
    spp: u32,
    every: bool,
    text: String,
    image: RgbImage,
}

impl Setup {
    fn new(r: &mut Rng, big: bool) -> Setup {
        let (w, h) = match r.below(10) {
            0 => (1, r.int(1, 30) as usize),
            1 => (r.int(1, 30) as usize, 1),
            2 => (2, r.int(1, 9) as usize),
            3 => (r.int(1, 9) as usize, 2),
            4 => (1 << r.int(1, 5), 1 << r.int(1, 5)),
            5 if big => (r.int(60, 200) as usize, r.int(1, 40) as usize),
            6 if big => (r.int(1, 40) as usize, r.int(60, 200) as usize),
            _ => (r.int(1, 30) as usize, r.int(1, 30) as usize),
        };
        let spp = if r.chance(0.3) { 1 } else { r.int(2, 24) as u32 };
        let view = View::new(r, w, h);
        let kind = if w * h <= 100 { r.below(4) } else { r.below(3) };
        let image = cell_image(r, w, h);
        let background = if kind == 2 { v(1., 1., 1.) } else { rand_color(r) };
        let factor = if kind == 1 {
            // The wall's normal points at the camera
            let n = (view.from - view.at).unit();
            n.dot(v(1., 1., -1.)) * 0.5 + 0.75
        } else {
            1.
        };
        let colors = image
            .pixels()
            .map(|p| v(p[0] as f64 / 255., p[1] as f64 / 255., p[2] as f64 / 255.) * factor)
            .collect();
        let every = r.chance(0.7);
        let text = format!("kind {kind}, {spp} samples, {view:?}");
        Setup { view, kind, colors, background, spp, every, text, image }
    }

    fn scene(&self) -> Scene {
        let tex = || ImageMap::new(Arc::new(self.image.clone()));
        let mut world = vec![self.view.light_away()];
        match self.kind {
            0 | 1 => world.push(self.view.wall(Lambertian::new(tex(), None))),
            2 => world.push(self.view.wall(Metal::new(tex(), None, 0.))),
            _ => {
                for (i, c) in self.colors.iter().enumerate() {
                    let (x, y) = (i % self.view.w, i / self.view.w);
                    // The front faces the camera
                    world.push(self.view.cell(x, y, light(*c)));
                }
            }
        }
        let shader = match self.kind {
            0 => AlbedoShader::new(),
            1 => SimpleShader::new(),
            _ => PathTracingShader::new(5),
        };
        let mut cfg = config(self.view.w, self.view.h, self.spp, shader);
        if self.every {
            cfg.render_image_strategy = RenderImageStrategy::EverySample;
        }
        if self.text.len() % 3 == 0 {
            cfg.post_processors = vec![NopPostProcessor::new()];
        }
        scene(bvh(world), self.view.camera(), self.background, cfg)
    }

    /// All pixels of all images. Coordinates of samples are rounded to single precision on their
    /// way, so that hardly ever one ends up in the neighbouring cell: this is accounted for
    fn check(&self, c: &mut Case, reports: &[RenderProgress], who: &str) -> Res {
        let (w, h) = (self.view.w, self.view.h);
        ensure!(reports.len() == self.spp as usize, "{who}: {} reports, {}", reports.len(), self.text);
        let mut strayed: HashMap<usize, String> = HashMap::new();
        for (n, rep) in reports.iter().enumerate() {
            let k = n as u32 + 1;
            let Some(img) = &rep.render_image else {
                ensure!(!self.every && k < self.spp, "{who}: report {k} has no image, {}", self.text);
                continue;
            };
            ensure!(
                (img.width() as usize, img.height() as usize) == (w, h),
                "{who}: image of {:?}, {}", img.dimensions(), self.text
            );
            c.count("images");
            for y in 0..h {
                for x in 0..w {
                    let own = self.colors[y * w + x];
                    let got = img.get_pixel(x as u32, y as u32);
                    c.eval();
                    c.distinct(hash_of((c.seed, who, k, x, y)));
                    if fits(got, own * k as f64, k) {
                        continue;
                    }
                    let mut ok = false;
                    for (dx, dy) in [(-1i64, 0i64), (1, 0), (0, -1), (0, 1), (-1, -1), (1, -1), (-1, 1), (1, 1)] {
                        let (nx, ny) = (x as i64 + dx, y as i64 + dy);
                        let inside = nx >= 0 && ny >= 0 && nx < w as i64 && ny < h as i64;
                        if !inside {
                            ok |= fits(got, own * (k - 1) as f64 + self.background, k);
                        }
                        // Textures repeat
                        let (nx, ny) = (nx.rem_euclid(w as i64) as usize, ny.rem_euclid(h as i64) as usize);
                        ok |= fits(got, own * (k - 1) as f64 + self.colors[ny * w + nx], k);
                    }
                    let msg = format!(
                        "{who}: pixel {x},{y} of image {k} is {:?}, but its samples are {k} of {own:?}, which is {:?}; {}",
                        got.0,
                        [0, 1, 2].map(|i| encode(own.get(i) * k as f64, k).0),
                        self.text
                    );
                    ensure!(ok, "{msg}");
                    strayed.insert(y * w + x, msg);
                }
            }
        }
        let samples = (w * h) as f64 * self.spp as f64;
        c.add("samples at borders of cells", strayed.len() as u64);
        if strayed.len() as f64 > 4. + samples * (w.max(h) as f64) * 2e-6 {
            return Err(format!("{} pixels got samples of others, e.g. {}", strayed.len(), strayed.values().next().unwrap()));
        }
        Ok(())
    }
}

fn fits(got: &Rgb<u8>, sum: V, n: u32) -> bool {
    (0..3).all(|i| {
        let (lo, hi) = encode(sum.get(i) * (1. - 1e-6), n);
        let (lo2, hi2) = encode(sum.get(i) * (1. + 1e-6), n);
        (lo.min(lo2)..=hi.max(hi2)).contains(&got[i])
    })
}

fn rand_shake(r: &mut Rng, h: usize) -> Shake {
    match r.below(5) {
        0 => Shake::None,
        1 => Shake::Yield,
        2 => Shake::Spin(r.log(10., 20000.) as u32),
        3 => Shake::Sleep(r.log(10., 300.) as u64),
        _ => Shake::Straggler(r.below(h as u64) as usize, r.log(50., 2000.) as u64),
    }
}

fn rand_workers(r: &mut Rng) -> Option<u64> {
    *r.pick(&[None, Some(1), Some(2), Some(3), Some(4), Some(7), Some(16), Some(40)])
}

/// Renders under observation, and counts what was seen of the interleaving
fn observed<T>(c: &mut Case, how: Shake, f: impl FnOnce() -> T) -> T {
    let log = Arc::new(Log::default());
    let l = log.clone();
    let guard = Observing::new(Arc::new(move |point, sample, row| {
        if point == "row_start" || point == "row_done" {
            shake(how, row);
        }
        if point.starts_with("row") {
            l.push(point, sample, row);
        }
    }));
    let res = f();
    drop(guard);
    let events = log.take();
    c.add("row events", events.len() as u64);
    let mut order: HashMap<u32, Vec<usize>> = HashMap::new();
    for e in &events {
        if e.point == "row_merged" {
            order.entry(e.sample).or_default().push(e.row);
        }
    }
    let (mut out_of_order, mut overlap, mut open) = (0, 0, 0i64);
    for rows in order.values() {
        if rows.windows(2).any(|p| p[0] > p[1]) {
            out_of_order += 1;
        }
    }
    for e in &events {
        match e.point {
            "row_start" => {
                open += 1;
                overlap = overlap.max(open);
            }
            "row_merged" => open -= 1,
            _ => {}
        }
    }
    c.add("samples whose rows were merged out of order", out_of_order);
    c.add(&format!("renders with {:02} rows at the same time at most", overlap.min(16)), 1);
    res
}

fn collect(renderer: &Renderer) -> Result<Vec<RenderProgress>, String> {
    let (tx, rx) = channel();
    let (_abort, abort_rx) = channel();
    no_panic(|| renderer.render(&tx, &abort_rx).map_err(|e| e.to_string()))
        .map_err(|p| format!("render panics: {p}"))?
        .map_err(|e| format!("render fails: {e}"))?;
    drop(tx);
    Ok(rx.iter().collect())
}

pub fn run(run: &Run) {
    run.cases_on("cells", run.n(900, 20000), 1, |c| {
        let s = Setup::new(&mut c.rng, true);
        let threads = rand_workers(&mut c.rng);
        let how = rand_shake(&mut c.rng, s.view.h);
        workers(threads);
        c.sample(|| format!("{} with {threads:?} workers, {how:?}", s.text));
        let res = observed(c, how, || render(s.scene()));
        workers(None);
        let res = res?;
        res.result.map_err(|e| format!("render fails: {e}; {}", s.text))?;
        c.count(&format!("renders of kind {}", s.kind));
        s.check(c, &res.reports, &format!("{threads:?} workers, {how:?}"))
    });

    run.cases_on("at the same time", run.n(200, 4000), 1, |c| {
        let n = c.rng.int(2, 7) as usize;
        let setups: Vec<Setup> = (0..n).map(|_| Setup::new(&mut c.rng, false)).collect();
        let shared = c.rng.chance(0.4);
        let threads = rand_workers(&mut c.rng);
        let how = rand_shake(&mut c.rng, 5);
        workers(threads);
        let results: Vec<Result<Vec<RenderProgress>, String>> = observed(c, how, || {
            let renderer = shared
                .then(|| Renderer::new(setups[0].scene()).map_err(|e| e.to_string()))
                .transpose()?;
            let renderer = renderer.as_ref();
            let all = std::thread::scope(|sc| {
                let handles: Vec<_> = setups
                    .iter()
                    .map(|s| {
                        sc.spawn(move || match renderer {
                            Some(r) => collect(r),
                            None => {
                                let res = render(s.scene())?;
                                res.result?;
                                Ok(res.reports)
                            }
                        })
                    })
                    .collect();
                handles
                    .into_iter()
                    .map(|h| h.join().unwrap_or_else(|_| Err("panic".into())))
                    .collect()
            });
            Ok::<_, String>(all)
        })?;
        workers(None);
        for (i, res) in results.into_iter().enumerate() {
            let s = if shared { &setups[0] } else { &setups[i] };
            c.count("concurrent renders");
            s.check(c, &res.map_err(|e| format!("{e}; {}", s.text))?, &format!("{i} of {n} at the same time (shared renderer {shared})"))?;
        }
        Ok(())
    });

    run.cases_on("again", run.n(30, 400), 1, |c| {
        let s = Setup::new(&mut c.rng, false);
        let renderer = Renderer::new(s.scene()).map_err(|e| e.to_string())?;
        for i in 0..3 {
            workers(rand_workers(&mut c.rng));
            let res = collect(&renderer);
            workers(None);
            s.check(c, &res?, &format!("render {i} of the same renderer"))?;
        }
        c.count("renderers used repeatedly");
        Ok(())
    });

    run.cases_on("coin flips", run.n(150, 3000), 1, |c| {
        let (w, h) = (c.rng.int(4, 20) as usize, c.rng.int(1, 12) as usize);
        let n = 24;
        let f = c.rng.range(0.4, 0.6);
        let view = View::new(&mut c.rng, w, h);
        let wall = view.wall(Blend::new(matte(v(0., 0., 0.)), matte(v(1., 1., 1.)), f));
        let mut cfg = config(w, h, n, AlbedoShader::new());
        cfg.render_image_strategy = RenderImageStrategy::EverySample;
        let threads = rand_workers(&mut c.rng);
        let how = rand_shake(&mut c.rng, h);
        workers(threads);
        let res = observed(c, how, || render(scene(bvh(vec![view.light_away(), wall]), view.camera(), v(0., 0., 0.), cfg)));
        workers(None);
        let res = res?;
        res.result.map_err(|e| format!("render fails: {e}"))?;
        ensure!(res.reports.len() == n as usize, "{} reports", res.reports.len());
        let mut history = vec![vec![]; w * h];
        for (i, rep) in res.reports.iter().enumerate() {
            let k = i as u32 + 1;
            let img = rep.render_image.as_ref().ok_or("report without image")?;
            for (p, past) in history.iter_mut().enumerate() {
                let got = img.get_pixel((p % w) as u32, (p / w) as u32);
                let ones = (0..=k).find(|m| fits(got, v(1., 1., 1.) * *m as f64, k));
                let Some(ones) = ones else {
                    return Err(format!(
                        "pixel {},{} of image {k} is {:?}: not the mean of {k} samples that are 0 or 1 ({w}x{h}, {threads:?}, {how:?})",
                        p % w, p / w, got.0
                    ));
                };
                let before = past.last().copied().unwrap_or(0);
                c.eval();
                c.distinct(hash_of((c.seed, k, p)));
                ensure!(
                    ones == before || ones == before + 1,
                    "pixel {},{} had sum {before} after {} samples and has {ones} after {k} ({w}x{h}, {threads:?}, {how:?})",
                    p % w, p / w, k - 1
                );
                past.push(ones);
            }
        }
        // Independent: no two pixels may have the same history, other than by chance
        let mut seen: HashMap<&Vec<u32>, u32> = HashMap::new();
        let mut pairs = 0;
        for past in &history {
            let e = seen.entry(past).or_default();
            pairs += *e;
            *e += 1;
        }
        ensure!(pairs < 4, "{pairs} pairs of pixels got the same random samples ({w}x{h}, {threads:?}, {how:?})");
        let total: u32 = history.iter().map(|p| *p.last().unwrap()).sum();
        let m = (w * h) as f64 * n as f64;
        let z = (total as f64 - m * f) / (m * f * (1. - f)).sqrt();
        ensure!(z.abs() < 6.5, "share of samples is {} instead of {f} ({w}x{h}, {threads:?}, {how:?})", total as f64 / m);
        c.count("renders of random walls");
        Ok(())
    });

    run.cases_on("spread over the cell", run.n(40, 500), 1, |c| {
        // Few pixels with many samples, or many pixels with few
        let (w, h, spp) = if c.rng.chance(0.6) {
            (c.rng.int(1, 5) as usize, c.rng.int(1, 5) as usize, 3000)
        } else {
            (c.rng.int(50, 90) as usize, c.rng.int(50, 90) as usize, c.rng.int(1, 2) as u32)
        };
        let each = spp > 2;
        let view = View::new(&mut c.rng, w, h);
        let fine = if each { 32usize } else { 16 };
        // The same pattern in each cell: gradients, or small parts that are bright or dark
        let kind = c.rng.below(3);
        let blocks: Vec<[bool; 3]> = (0..64).map(|_| [(); 3].map(|_| c.rng.chance(0.5))).collect();
        let pattern = |a: f64, b: f64| -> [f64; 3] {
            match kind {
                0 => [a, b, (2. * a - 1.).abs()],
                1 => [(a - b).abs(), (a + b - 1.).abs(), ((a < 0.5) == (b < 0.5)) as u8 as f64],
                _ => blocks[(b * 7.999) as usize * 8 + (a * 7.999) as usize].map(|l| l as u8 as f64),
            }
        };
        let img = RgbImage::from_fn((w * fine) as u32, (h * fine) as u32, |x, y| {
            let at = |i: u32| (i as usize % fine) as f64 / (fine as f64 - 1.);
            Rgb(pattern(at(x), at(y)).map(|g| (255. * g) as u8))
        });
        let (mut mean, mut squares) = (v(0., 0., 0.), v(0., 0., 0.));
        for i in 0..fine * fine {
            let p = img.get_pixel((i % fine) as u32, (i / fine) as u32);
            let p = v(p[0] as f64, p[1] as f64, p[2] as f64) / 255.;
            mean = mean + p / (fine * fine) as f64;
            squares = squares + p.times(p) / (fine * fine) as f64;
        }
        let wall = view.wall(Lambertian::new(ImageMap::new(Arc::new(img)), None));
        let threads = rand_workers(&mut c.rng);
        workers(threads);
        let image = render_image(scene(
            bvh(vec![view.light_away(), wall]),
            view.camera(),
            v(0., 0., 0.),
            config(w, h, spp, AlbedoShader::new()),
        ));
        workers(None);
        let image = image?;
        let value = |b: u8| ((b as f64 + 0.5) / 256.).powi(2);
        c.count(&format!("walls of kind {kind} with {} samples", if each { "many" } else { "few" }));
        for i in 0..3 {
            let sd = (squares.get(i) - mean.get(i).powi(2)).max(0.).sqrt();
            if each {
                for (x, y, p) in image.enumerate_pixels() {
                    c.eval();
                    let got = value(p[i]);
                    ensure!(
                        (got - mean.get(i)).abs() < 0.006 + 6.5 * sd / (spp as f64).sqrt(),
                        "pixel {x},{y} of {w}x{h}: mean of pattern {i} of kind {kind} over its cell is {got} instead of {}", mean.get(i)
                    );
                    c.distinct(hash_of((c.seed, x, y, i)));
                }
            } else {
                let n = (w * h) as f64;
                let got = image.pixels().map(|p| value(p[i])).sum::<f64>() / n;
                c.eval();
                c.distinct(hash_of((c.seed, i)));
                ensure!(
                    (got - mean.get(i)).abs() < 0.006 + 6.5 * sd / (n * spp as f64).sqrt(),
                    "{w}x{h} with {spp} samples: mean of pattern {i} of kind {kind} over the cells of all pixels is {got} instead of {}", mean.get(i)
                );
            }
        }
        Ok(())
    });
}
