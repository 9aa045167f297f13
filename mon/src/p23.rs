//! Tone mapping
use crate::core::*;
use crate::geom::*;
use crate::scene::close;
use image::Rgb;
use solstrale::post::{NopPostProcessor, PostProcessor};
use solstrale::util::rgb_color::{rgb_to_vec3, to_float, to_rgb_color};

pub const RULE: &str = "Sums and sample counts over all orders of magnitude, at the limits between two output values, out of range and not finite, and bit-random ones are tone mapped singly, in images and compared with the clamped square root computed independently; all 256 values (all 16 million colours in the thorough tier) are decoded. Non-trivial: finite positive means in 0..1.5 that are not on the limit of two output values; counted by sums and sample count.";

/// The output values that may result for the sum
pub fn encode(sum: f64, n: u32) -> (u8, u8) {
    let m = sum / n as f64;
    if m.is_nan() {
        return (0, 255);
    }
    if m <= 0. {
        return (0, 0);
    }
    let x = 256. * m.sqrt();
    if x.is_infinite() || x >= 256. {
        return (255, 255);
    }
    let e = 1e-9 * x.max(1e-3);
    ((x - e).max(0.) as u8, (x + e).min(255.) as u8)
}

fn sum(r: &mut Rng, n: u32) -> f64 {
    let n = n as f64;
    match r.below(12) {
        0 => 0.,
        1 => -0.,
        2 => -r.log(1e-9, 1e9),
        3 => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE]),
        4 => f64::from_bits(r.next()),
        5 => {
            // Around the limit between two output values
            let k = r.int(0, 257) as f64 / 256.;
            n * k * k * (1. + r.sign() * r.log(1e-8, 1e-3))
        }
        6 => n * r.log(1e-9, 1e9),
        7 => n * (1. + r.sign() * r.log(1e-9, 1e-2)),
        _ => n * r.range(0., 1.5),
    }
}

fn samples(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => 1,
        1 => r.int(1, 100) as u32,
        2 => r.log(1., 4e9) as u32,
        _ => u32::MAX - r.below(3) as u32,
    }
}

pub fn run(run: &Run) {
    run.cases("colors", run.n(8000, 100000), |c| {
        for _ in 0..200 {
            let n = samples(&mut c.rng);
            let s = v(sum(&mut c.rng, n), sum(&mut c.rng, n), sum(&mut c.rng, n));
            c.eval();
            c.sample(|| format!("sum {s:?} of {n}"));
            let got = no_panic(|| to_rgb_color(s.s(), n)).map_err(|p| format!("sum {s:?} of {n} samples panics: {p}"))?;
            if s.finite() {
                c.distinct_f(&[s.0, s.1, s.2, n as f64]);
            }
            for i in 0..3 {
                let (lo, hi) = encode(s.get(i), n);
                ensure!(
                    got[i] >= lo && got[i] <= hi,
                    "channel {i} of the sum {s:?} of {n} samples is {}, should be {lo}..{hi}", got[i]
                );
            }
            // Only the ratio counts
            if n < 1 << 20 {
                let k = 1 << c.rng.int(1, 10);
                let again = to_rgb_color((s * k as f64).s(), n * k);
                ensure!(
                    again == got || !s.finite() || !(s * k as f64).finite(),
                    "sum {s:?} of {n} gives {got:?}, but {k} times of both give {again:?}"
                );
            }
            let f = V::of(to_float(s.s(), n));
            for i in 0..3 {
                let m = s.get(i) / n as f64;
                if m >= 0. && m.is_finite() {
                    let x = m.sqrt();
                    let y = f.get(i);
                    let want = x.min(1.);
                    ensure!(
                        (y - want).abs() <= if x > 0.998 { 0.0021 } else { 1e-12 },
                        "float channel {i} of the sum {s:?} of {n} is {y}"
                    );
                }
            }
        }
        Ok(())
    });

    run.cases("monotone", run.n(2000, 40000), |c| {
        let n = samples(&mut c.rng);
        let mut xs: Vec<f64> = (0..300).map(|_| sum(&mut c.rng, n)).filter(|x| !x.is_nan()).collect();
        xs.sort_by(f64::total_cmp);
        let mut last = 0;
        for x in xs {
            c.eval();
            c.distinct_f(&[x, n as f64]);
            let others = v(sum(&mut c.rng, n), x, sum(&mut c.rng, n));
            let y = to_rgb_color(others.s(), n)[1];
            ensure!(y >= last, "the sum {x} of {n} samples is mapped to {y}, a smaller one to {last}");
            last = y;
        }
        Ok(())
    });

    run.cases("decoding", 256, |c| {
        let r = c.index as u8;
        for g in 0..=255u8 {
            for b in 0..=255u8 {
                if !c.thorough() && (g as u32 * 7 + b as u32 * 13 + r as u32) % 16 != 0 {
                    continue;
                }
                c.eval();
                c.distinct((r as u64) << 16 | (g as u64) << 8 | b as u64);
                let d = V::of(rgb_to_vec3(&Rgb([r, g, b])));
                let want = v(r as f64 / 255., g as f64 / 255., b as f64 / 255.);
                ensure!(close(d, want, 1e-15), "({r}, {g}, {b}) is decoded to {d:?}");
            }
        }
        Ok(())
    });

    run.cases("images", run.n(2000, 20000), |c| {
        let (w, h) = (c.rng.int(1, 30) as u32, c.rng.int(1, 30) as u32);
        let n = samples(&mut c.rng);
        let sums: Vec<V> = (0..w * h).map(|_| v(sum(&mut c.rng, n), sum(&mut c.rng, n), sum(&mut c.rng, n))).collect();
        let px: Vec<_> = sums.iter().map(|s| s.s()).collect();
        let img = no_panic(|| NopPostProcessor::new().post_process(&px, &[], &[], w, h, n).map_err(|e| e.to_string()))
            .map_err(|p| format!("{w}x{h} image panics: {p}"))?
            .map_err(|e| format!("{w}x{h} image fails: {e}"))?;
        ensure!(img.dimensions() == (w, h), "image is {:?} instead of {w}x{h}", img.dimensions());
        for (i, s) in sums.iter().enumerate() {
            c.eval();
            let p = img.get_pixel(i as u32 % w, i as u32 / w);
            for k in 0..3 {
                let (lo, hi) = encode(s.get(k), n);
                ensure!(p[k] >= lo && p[k] <= hi, "{w}x{h} image: pixel {i} with sum {s:?} of {n} is {p:?}");
            }
        }
        Ok(())
    });
}
