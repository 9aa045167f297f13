//! Bloom
use crate::core::*;
use crate::geom::*;
use crate::p23::encode;
use crate::scene::*;
use solstrale::geo::vec3::Vec3;
use solstrale::post::{BloomPostProcessor, PostProcessor};
use solstrale::util::gaussian::create_gaussian_blur_weights;

pub const RULE: &str = "Images (noise, single bright pixels, constants, gradients, brightness exactly at the limits) of all sizes, fractions, limits and sample counts are filtered on 1 to 16 threads, in the intermediate and the final form, and each pixel is compared with a direct two-dimensional blur; kernels are checked on their own; fractions in and out of range are offered. Non-trivial: images with at least one bright pixel and a blur; counted by image and pixel.";

/// Blurred bright pixels, by the definition
pub fn reference(px: &[V], w: usize, h: usize, n: u32, fraction: f64, threshold: f64, max: f64) -> Vec<V> {
    let n = n as f64;
    let half = (fraction * w as f64).floor() as i64;
    let dev = (2 * half + 1) as f64 / 5.;
    let weight: Vec<f64> = (-half..=half).map(|k| (-0.5 * (k as f64 / dev).powi(2)).exp()).collect();
    let sum: f64 = weight.iter().sum();
    let bright: Vec<V> = px
        .iter()
        .map(|p| {
            let l = p.len();
            if l < threshold * n {
                v(0., 0., 0.)
            } else if l > max * n {
                *p * (max * n / l)
            } else {
                *p
            }
        })
        .collect();
    let mut o = vec![];
    for y in 0..h as i64 {
        for x in 0..w as i64 {
            let mut s = v(0., 0., 0.);
            for j in -half..=half {
                for i in -half..=half {
                    let (xx, yy) = ((x + i).clamp(0, w as i64 - 1), (y + j).clamp(0, h as i64 - 1));
                    s = s + bright[(yy * w as i64 + xx) as usize] * (weight[(i + half) as usize] * weight[(j + half) as usize] / sum / sum);
                }
            }
            o.push(px[(y * w as i64 + x) as usize] + s);
        }
    }
    o
}

fn image(r: &mut Rng, w: usize, h: usize, n: u32, threshold: f64) -> (Vec<V>, &'static str) {
    let k = n as f64;
    let count = w * h;
    match r.below(6) {
        0 => {
            let c = rand_color(r) * 3. * k;
            (vec![c; count], "constant")
        }
        1 => {
            let mut p = vec![v(0., 0., 0.); count];
            for _ in 0..r.int(1, 3) {
                p[r.below(count as u64) as usize] = rand_color(r) * 30. * k;
            }
            (p, "bright pixels")
        }
        2 => ((0..count).map(|i| v((i % w) as f64 / w as f64, (i / w) as f64 / h as f64, 0.3) * 4. * k).collect(), "gradients"),
        3 => {
            // Just below and above the limit
            (
                (0..count)
                    .map(|_| {
                        let d = rand_dir(r);
                        v(d.0.abs(), d.1.abs(), d.2.abs()) * (threshold * k * (1. + r.sign() * r.log(1e-6, 0.1)))
                    })
                    .collect(),
                "close to the limit",
            )
        }
        4 => ((0..count).map(|_| if r.chance(0.2) { { let b = r.log(1., 100.) * k; rand_color(r) * b } } else { rand_color(r) * 0.5 * k }).collect(), "some bright"),
        _ => ((0..count).map(|_| rand_color(r) * 2. * k).collect(), "noise"),
    }
}

pub fn run(run: &Run) {
    let pools: Vec<rayon::ThreadPool> = [1usize, 2, 3, 5, 16]
        .iter()
        .map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())
        .collect();
    run.cases("images", run.n(6000, 100000), |c| {
        let mut rng = c.rng.clone();
        let r = &mut rng;
        let (w, h) = match r.below(5) {
            0 => (1, r.int(1, 12) as usize),
            1 => (r.int(1, 40) as usize, 1),
            _ => (r.int(1, 24) as usize, r.int(1, 24) as usize),
        };
        let n = match r.below(3) {
            0 => 1,
            _ => r.log(1., 5000.) as u32,
        };
        let fraction = match r.below(5) {
            0 => 0.,
            1 => 0.5,
            2 => r.int(0, w as i64 / 2) as f64 / w as f64,
            _ => r.range(0., 0.5),
        };
        // Whole pixels, unless it is too close to tell
        let radius = fraction * w as f64;
        if (radius - radius.round()).abs() < 1e-9 && radius != radius.round() {
            return Ok(());
        }
        let threshold = r.chance(0.6).then(|| if r.chance(0.1) { 0. } else { r.log(0.05, 10.) });
        let max = r.chance(0.6).then(|| r.log(0.05, 20.));
        let t = threshold.unwrap_or(3f64.sqrt());
        let (px, kind) = image(r, w, h, n, t);
        let colors: Vec<Vec3> = px.iter().map(|p| p.s()).collect();
        let want = reference(&px, w, h, n, fraction, t, max.unwrap_or(f64::INFINITY));
        let bright = px.iter().filter(|p| p.len() >= t * n as f64).count();
        let near = px.iter().any(|p| (p.len() / (t * n as f64) - 1.).abs() < 1e-9 && t > 0.);
        let text = format!("{w}x{h} {kind}, {n} samples, radius {fraction} of the width, threshold {threshold:?}, maximum {max:?}");
        c.sample(|| text.clone());
        if near {
            return Ok(());
        }
        if bright > 0 && fraction * w as f64 >= 1. {
            c.distinct(hash_of((&text, c.seed)));
            c.count("images with blur");
        }
        c.add("bright pixels", bright as u64);
        let bloom = BloomPostProcessor::new(fraction, threshold, max).map_err(|e| format!("{text}: is refused: {e}"))?;
        ensure!(!bloom.needs_albedo_and_normal_colors(), "{text}: needs albedo and normal colors");
        let pool = r.pick(&pools);
        let none: Vec<Vec3> = vec![];
        let other: &[Vec3] = if r.chance(0.5) { &none } else { &colors };
        let got = pool
            .install(|| no_panic(|| bloom.intermediate_post_process(&colors, other, other, w as u32, h as u32, n).map_err(|e| e.to_string())))
            .map_err(|p| format!("{text}: panics: {p}"))?
            .map_err(|e| format!("{text}: fails: {e}"))?;
        ensure!(got.len() == want.len(), "{text}: {} pixels", got.len());
        let largest = want.iter().map(|p| p.max_abs()).fold(0., f64::max);
        for (i, (g, k)) in got.iter().zip(&want).enumerate() {
            c.eval();
            ensure!(
                close(V::of(*g), *k, 1e-9 * largest.max(1e-9)),
                "{text}: pixel {},{} is {:?} instead of {k:?} (without bloom {:?})", i % w, i / w, V::of(*g), px[i]
            );
        }
        // However many threads there are, and also as the last filter
        let again = c
            .rng
            .pick(&pools)
            .install(|| bloom.intermediate_post_process(&colors, other, other, w as u32, h as u32, n).map_err(|e| e.to_string()))?;
        ensure!(
            got.iter().zip(&again).all(|(a, b)| V::of(*a) == V::of(*b)),
            "{text}: depends on the number of threads"
        );
        let img = bloom
            .post_process(&colors, other, other, w as u32, h as u32, n)
            .map_err(|e| format!("{text}: fails: {e}"))?;
        ensure!((img.width() as usize, img.height() as usize) == (w, h), "{text}: image is {:?}", img.dimensions());
        for (x, y, p) in img.enumerate_pixels() {
            let k = want[y as usize * w + x as usize];
            for i in 0..3 {
                let (lo, _) = encode(k.get(i) * (1. - 1e-9), n);
                let (_, hi) = encode(k.get(i) * (1. + 1e-9), n);
                c.eval();
                ensure!((lo..=hi).contains(&p[i]), "{text}: pixel {x},{y} of the image is {:?}, should be {lo} to {hi}", p.0);
            }
        }
        if kind == "constant" && bright > 0 {
            c.count("constant bright images");
        }
        Ok(())
    });

    run.cases("large images", run.n(24, 300), |c| {
        // Checked at some pixels only: a single bright one makes the kernel visible
        let r = &mut c.rng;
        let (w, h) = (r.int(100, 600) as usize, r.int(50, 300) as usize);
        let fraction = r.range(0., 0.3);
        let half = (fraction * w as f64).floor() as i64;
        let mut px = vec![v(0., 0., 0.); w * h];
        let (bx, by) = (r.below(w as u64) as i64, r.below(h as u64) as i64);
        px[by as usize * w + bx as usize] = v(100., 200., 300.);
        let colors: Vec<Vec3> = px.iter().map(|p| p.s()).collect();
        let bloom = BloomPostProcessor::new(fraction, None, None).map_err(|e| e.to_string())?;
        let got = bloom
            .intermediate_post_process(&colors, &colors, &colors, w as u32, h as u32, 1)
            .map_err(|e| e.to_string())?;
        let dev = (2 * half + 1) as f64 / 5.;
        let g = |k: i64| (-0.5 * (k as f64 / dev).powi(2)).exp();
        let sum: f64 = (-half..=half).map(g).sum();
        // Pixels of the border stand for all beyond
        let axis = |p: i64, b: i64, n: i64| -> f64 {
            (-half..=half).filter(|k| (p + k).clamp(0, n - 1) == b).map(g).sum::<f64>() / sum
        };
        let ax: Vec<f64> = (0..w as i64).map(|x| axis(x, bx, w as i64)).collect();
        let ay: Vec<f64> = (0..h as i64).map(|y| axis(y, by, h as i64)).collect();
        for (i, p) in got.iter().enumerate() {
            let want = px[i] + v(100., 200., 300.) * (ax[i % w] * ay[i / w]);
            c.eval();
            ensure!(close(V::of(*p), want, 1e-8), "{w}x{h}, radius {half}: bright pixel {bx},{by} makes pixel {},{} {:?} instead of {want:?}", i % w, i / w, V::of(*p));
        }
        c.distinct(hash_of((w, h, bx, by, half)));
        c.count("large images");
        Ok(())
    });

    run.cases("weights", run.n(400, 4000), |c| {
        let size = if c.index < 60 { 2 * c.index as usize + 1 } else { 2 * c.rng.log(1., 1000.) as usize + 1 };
        let dev = if c.rng.chance(0.5) { size as f64 / 5. } else { size as f64 * c.rng.log(0.05, 5.) };
        let w = create_gaussian_blur_weights(size, dev);
        c.eval();
        c.distinct(hash_of((size, dev.to_bits())));
        ensure!(w.len() == size, "{size}, {dev}: {} weights", w.len());
        let sum: f64 = w.iter().sum();
        ensure!((sum - 1.).abs() < 1e-9, "{size}, {dev}: sum is {sum}");
        let half = size / 2;
        for i in 0..size {
            ensure!((w[i] - w[size - 1 - i]).abs() < 1e-12, "{size}, {dev}: not symmetric at {i}");
            let g = (-0.5 * ((i as f64 - half as f64) / dev).powi(2)).exp();
            ensure!((w[i] - w[half] * g).abs() < 1e-12, "{size}, {dev}: weight {i} is {} instead of {}", w[i], w[half] * g);
        }
        Ok(())
    });

    run.cases("fractions", run.n(400, 4000), |c| {
        let f = match c.rng.below(8) {
            0 => f64::NAN,
            1 => f64::INFINITY * c.rng.sign(),
            2 => -c.rng.log(1e-300, 1e9),
            3 => 0.5 + c.rng.log(1e-15, 1e9),
            4 => 0.5,
            5 => *c.rng.pick(&[0., -0.]),
            _ => c.rng.range(0., 0.5),
        };
        c.eval();
        c.distinct(f.to_bits());
        let ok = BloomPostProcessor::new(f, None, None).is_ok();
        let want = (0. ..=0.5).contains(&f);
        c.count(if want { "fractions in range" } else { "fractions out of range" });
        ensure!(ok == want, "fraction {f} is accepted: {ok}");
        Ok(())
    });
}
