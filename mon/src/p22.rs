//! Chains of post processors
use crate::core::*;
use crate::geom::*;
use crate::hooks::workers;
use crate::p03::View;
use crate::p16::texel;
use crate::p17::expected;
use crate::p21::reference;
use crate::p23::encode;
use crate::scene::*;
use image::{Rgb, RgbImage};
use solstrale::material::texture::ImageMap;
use solstrale::material::*;
use solstrale::post::*;
use solstrale::renderer::shader::*;
use solstrale::renderer::{RenderImageStrategy, RenderProgress, Renderer, Scene};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::mpsc::channel;
use std::sync::Arc;
use std::time::Duration;

pub const RULE: &str = "Scenes in which each pixel's cell of the view has its own known colour (beyond one as well), surface colour and normal are rendered with random chains of post processors, image strategies, sample counts, workers, and several times with the same renderer. Each image is compared with the chain applied by independent filters, in order, to the known sums of as many samples as were taken then. With the denoiser feature, a stand-in for the denoiser records what it is given and makes the image or an error: its buffers must be the encoded colours after the chain so far, and the means of the surface colours and normals, pixel by pixel; its output must become the image, its errors must be returned, also when it is not the last one. Non-trivial: pixels of images made by a chain; counted by scene, sample count and pixel.";

#[derive(Clone, Debug)]
enum Post {
    Nop,
    Bloom(f64, Option<f64>, Option<f64>),
    Denoise,
}

impl Post {
    fn build(&self) -> PostProcessors {
        match self {
            Post::Nop => NopPostProcessor::new(),
            Post::Bloom(f, t, m) => BloomPostProcessor::new(*f, *t, *m).expect("fraction is in range").into(),
            Post::Denoise => OidnPostProcessor::new(),
        }
    }
}

const DENOISER: bool = cfg!(feature = "oidn");

struct Setup {
    view: View,
    /// Surface colour, and radiance, of each pixel
    albedo: Vec<V>,
    colors: Vec<V>,
    normals: Vec<V>,
    lights: bool,
    shader: u64,
    spp: u32,
    chain: Vec<Post>,
    strategy: RenderImageStrategy,
    color_map: RgbImage,
    normal_map: RgbImage,
    text: String,
}

impl Setup {
    fn new(r: &mut Rng) -> Setup {
        let (w, h) = match r.below(6) {
            0 => (1, r.int(1, 12) as usize),
            1 => (r.int(1, 12) as usize, 1),
            _ => (r.int(2, 12) as usize, r.int(2, 12) as usize),
        };
        let view = View::new(r, w, h);
        let spp = if r.chance(0.2) { 1 } else { r.int(2, 9) as u32 };
        let lights = r.chance(0.5);
        let n = w * h;
        let byte = |r: &mut Rng| r.int(20, 250) as u8;
        let color_map = RgbImage::from_fn(w as u32, h as u32, |_, _| Rgb([byte(r), byte(r), byte(r)]));
        let normal_map = RgbImage::from_fn(w as u32, h as u32, |_, _| Rgb([byte(r), byte(r), r.int(190, 250) as u8]));
        let front = (view.from() - view.at()).unit();
        let (tu, tv) = (view.right.unit(), view.upward.unit());
        let pixel = |i: usize| ((i % w) as u32, (i / w) as u32);
        let shader = if lights { 0 } else { r.below(3) };
        let normals: Vec<V> = (0..n)
            .map(|i| {
                if lights {
                    return front;
                }
                let (x, y) = pixel(i);
                expected(texel(&normal_map, x, y), tu, tv, front).expect("normals are not degenerate")
            })
            .collect();
        let albedo: Vec<V> = (0..n)
            .map(|i| {
                let (x, y) = pixel(i);
                let c = texel(&color_map, x, y);
                if lights {
                    // Some brighter than any screen
                    c * if r.chance(0.3) { r.log(1., 30.) } else { 1. }
                } else {
                    c
                }
            })
            .collect();
        let colors = albedo
            .iter()
            .zip(&normals)
            .map(|(a, n)| match shader {
                0 => *a,
                1 => *n,
                _ => *a * (n.dot(v(1., 1., -1.)) * 0.5 + 0.75),
            })
            .collect();
        let len = *r.pick(&[0, 1, 1, 2, 2, 3, 4]);
        let mut chain = vec![];
        for k in 0..len {
            chain.push(match r.below(if DENOISER { 8 } else { 5 }) {
                0 => Post::Nop,
                1..=3 => Post::Bloom(
                    *r.pick(&[0., 0.1, 0.2, 0.34, 0.5]),
                    r.chance(0.7).then(|| r.log(0.1, 2.)),
                    r.chance(0.5).then(|| r.log(0.3, 10.)),
                ),
                4 => {
                    if DENOISER && k + 1 < len && !r.chance(0.1) {
                        Post::Nop
                    } else {
                        Post::Denoise
                    }
                }
                _ => {
                    // Mostly where it belongs
                    if k + 1 == len || r.chance(0.02) {
                        Post::Denoise
                    } else {
                        Post::Nop
                    }
                }
            });
        }
        let strategy = match r.below(4) {
            0 => RenderImageStrategy::OnlyFinal,
            1 => RenderImageStrategy::Interval(Duration::from_micros(r.log(1., 5000.) as u64)),
            _ => RenderImageStrategy::EverySample,
        };
        let text = format!("{w}x{h}, {spp} samples, {}, shader {shader}, {chain:?}", if lights { "lights" } else { "wall" });
        Setup { view, albedo, colors, normals, lights, shader, spp, chain, strategy, color_map, normal_map, text }
    }

    fn scene(&self) -> Scene {
        let mut world = vec![self.view.light_away()];
        if self.lights {
            for (i, c) in self.albedo.iter().enumerate() {
                world.push(self.view.cell(i % self.view.w, i / self.view.w, light(*c)));
            }
        } else {
            let tex = |i: &RgbImage| ImageMap::new(Arc::new(i.clone()));
            world.push(self.view.wall(Lambertian::new(tex(&self.color_map), Some(tex(&self.normal_map)))));
        }
        let shader = match (self.lights, self.shader) {
            (true, _) => PathTracingShader::new(3),
            (_, 0) => AlbedoShader::new(),
            (_, 1) => NormalShader::new(),
            _ => SimpleShader::new(),
        };
        let mut cfg = config(self.view.w, self.view.h, self.spp, shader);
        cfg.post_processors = self.chain.iter().map(|p| p.build()).collect();
        cfg.render_image_strategy = self.strategy;
        scene(bvh(world), self.view.camera(), v(0.1, 0.2, 0.3), cfg)
    }

    /// The sums after the processors, without the last one if that is the denoiser
    fn processed(&self, k: u32) -> Option<Vec<V>> {
        let mut px: Vec<V> = self.colors.iter().map(|c| *c * k as f64).collect();
        for p in &self.chain {
            if let Post::Bloom(f, t, m) = p {
                let t = t.unwrap_or(3f64.sqrt());
                let near = |p: &V, l: f64| (p.len() / (l * k as f64) - 1.).abs() < 1e-7;
                if px.iter().any(|p| near(p, t)) {
                    return None;
                }
                px = reference(&px, self.view.w, self.view.h, k, *f, t, m.unwrap_or(f64::INFINITY));
            }
        }
        Some(px)
    }

    fn check_image(&self, c: &mut Case, img: &RgbImage, k: u32) -> Res {
        let (w, h) = (self.view.w, self.view.h);
        ensure!((img.width() as usize, img.height() as usize) == (w, h), "image {k} is {:?}, {}", img.dimensions(), self.text);
        let Some(px) = self.processed(k) else {
            c.count("images with pixels at a limit");
            return Ok(());
        };
        for (i, p) in px.iter().enumerate() {
            let got = img.get_pixel((i % w) as u32, (i / w) as u32);
            c.eval();
            c.distinct(hash_of((c.seed, k, i)));
            for j in 0..3 {
                // The square root of something negative is no colour
                if p.get(j) < 0. {
                    continue;
                }
                let (lo, _) = encode(p.get(j) * (1. - 1e-6), k);
                let (_, hi) = encode(p.get(j) * (1. + 1e-6), k);
                ensure!(
                    (lo..=hi).contains(&got[j]),
                    "pixel {},{} of the image after {k} samples is {:?}, should be {lo} to {hi} in channel {j} ({:?} without post processing); {}",
                    i % w, i / w, got.0, self.colors[i], self.text
                );
            }
        }
        c.count("images");
        if !self.chain.is_empty() {
            c.count("images made by a chain");
        }
        if k < self.spp {
            c.count("images before the last one");
        }
        Ok(())
    }
}

fn collect(renderer: &Renderer) -> Result<(Vec<RenderProgress>, Result<(), String>), String> {
    let (tx, rx) = channel();
    let (_abort, abort_rx) = channel();
    let res = no_panic(|| renderer.render(&tx, &abort_rx).map_err(|e| e.to_string())).map_err(|p| format!("render panics: {p}"))?;
    drop(tx);
    Ok((rx.iter().collect(), res))
}

type Calls = Rc<RefCell<Vec<oidn::Call>>>;

/// The value that the stand-in for the denoiser gives to a channel
fn painted(n: usize, i: usize) -> u8 {
    ((i * 37 + n * 101) % 251) as u8
}

fn check_call(c: &mut Case, s: &Setup, call: &oidn::Call, k: u32) -> Res {
    let (w, h) = (s.view.w, s.view.h);
    ensure!((call.width, call.height) == (w, h), "denoiser is given {}x{}; {}", call.width, call.height, s.text);
    let (Some(albedo), Some(normal)) = (&call.albedo, &call.normal) else {
        return Err(format!("denoiser is not given surface colours and normals; {}", s.text));
    };
    let Some(px) = s.processed(k) else { return Ok(()) };
    let float = |x: f64| x.max(0.).sqrt().min(0.999);
    for i in 0..w * h {
        for j in 0..3 {
            let n = i * 3 + j;
            c.eval();
            c.distinct(hash_of((c.seed, k, i, "call")));
            let close = |got: f32, want: f64| (got as f64 - want).abs() < 1e-5;
            let at = format!("channel {j} of pixel {},{} after {k} samples", i % w, i / w);
            let p = px[i].get(j) / k as f64;
            ensure!(p < 0. || close(call.color[n], float(p)), "denoiser is given {} as colour instead of {} in {at}; {}", call.color[n], float(p), s.text);
            ensure!(
                close(albedo[n], float(s.albedo[i].get(j))),
                "denoiser is given {} as surface colour instead of {} in {at}; {}", albedo[n], float(s.albedo[i].get(j)), s.text
            );
            ensure!(
                close(normal[n], s.normals[i].get(j)),
                "denoiser is given {} as normal instead of {} in {at}; {}", normal[n], s.normals[i].get(j), s.text
            );
        }
    }
    c.count("calls of the denoiser");
    Ok(())
}

fn attempt(c: &mut Case, s: &Setup, fail_at: Option<u32>, runs: u32) -> Res {
    let renderer = no_panic(|| Renderer::new(s.scene()).map_err(|e| e.to_string()))??;
    for _ in 0..runs {
        let calls: Calls = Default::default();
        let log = calls.clone();
        oidn::set_handler(Some(Box::new(move |call, out| {
            let n = log.borrow().len();
            log.borrow_mut().push(call.clone());
            for (i, o) in out.iter_mut().enumerate() {
                *o = (painted(n, i) as f32 + 0.5) / 256.;
            }
            (fail_at == Some(n as u32)).then(|| format!("no memory {n}"))
        })));
        let done = collect(&renderer);
        oidn::set_handler(None);
        let (reports, result) = done?;
        let calls = calls.borrow();
        let last = matches!(s.chain.last(), Some(Post::Denoise));
        let before = s.chain.iter().rev().skip(1).any(|p| matches!(p, Post::Denoise));
        if DENOISER && before {
            c.count("renders with the denoiser in between");
            let e = match &result {
                Ok(()) => return Err(format!("denoiser can not be used before others, but there is no error; {}", s.text)),
                Err(e) => e,
            };
            ensure!(!e.is_empty() && reports.iter().all(|r| r.render_image.is_none()), "images in spite of the error; {}", s.text);
            continue;
        }
        if !DENOISER {
            ensure!(calls.is_empty(), "a denoiser that is not there is called");
        }
        if let (true, true, Some(f)) = (DENOISER, last, fail_at) {
            if (f as usize) < calls.len() {
                c.count("errors of the denoiser");
                ensure!(
                    result.as_ref().err().is_some_and(|e| e.contains(&format!("no memory {f}"))),
                    "the denoiser fails in image {f}, but the result is {result:?}; {}", s.text
                );
                ensure!(calls.len() == f as usize + 1, "the render goes on after the error; {}", s.text);
                ensure!(reports.iter().filter(|r| r.render_image.is_some()).count() == f as usize, "wrong number of images before the error; {}", s.text);
                continue;
            }
        }
        result.map_err(|e| format!("render fails: {e}; {}", s.text))?;
        ensure!(reports.len() == s.spp as usize, "{} reports; {}", reports.len(), s.text);
        ensure!(reports.last().unwrap().render_image.is_some(), "there is no last image; {}", s.text);
        let mut images = 0;
        for (i, rep) in reports.iter().enumerate() {
            let k = i as u32 + 1;
            let Some(img) = &rep.render_image else { continue };
            if DENOISER && last {
                ensure!(images < calls.len(), "images without the denoiser; {}", s.text);
                check_call(c, s, &calls[images], k)?;
                for (i, b) in img.as_raw().iter().enumerate() {
                    c.eval();
                    ensure!(*b == painted(images, i), "value {i} of the image is {b}, the denoiser made it {}; {}", painted(images, i), s.text);
                }
            } else {
                s.check_image(c, img, k)?;
            }
            images += 1;
        }
        ensure!(!DENOISER || !last || images == calls.len(), "{} calls of the denoiser for {images} images; {}", calls.len(), s.text);
        if matches!(s.strategy, RenderImageStrategy::EverySample) {
            ensure!(images == s.spp as usize, "{images} images; {}", s.text);
        }
    }
    Ok(())
}

pub fn run(run: &Run) {
    run.cases_on("chains", run.n(3000, 40000), 1, |c| {
        let mut rng = c.rng.clone();
        let s = Setup::new(&mut rng);
        let fail_at = rng.chance(0.2).then(|| rng.below(s.spp as u64) as u32);
        let runs = if rng.chance(0.2) { 2 } else { 1 };
        workers(*rng.pick(&[Some(1), Some(2), Some(3), Some(8)]));
        c.sample(|| s.text.clone());
        c.count(&format!("chains of {}", s.chain.len()));
        let mut res = attempt(c, &s, fail_at, runs);
        // Coordinates of samples are rounded to single precision on their way, so that hardly ever one
        // ends up in the neighbouring cell: that does not happen again and again
        for _ in 0..2 {
            if res.is_err() {
                c.count("renders that were repeated");
                res = attempt(c, &s, fail_at, runs);
            }
        }
        workers(None);
        res
    });
}
