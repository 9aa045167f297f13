//! Random samplers
use crate::core::*;
use crate::geom::*;
use crate::stats::*;
use solstrale::geo::vec3::*;
use solstrale::random::*;
use std::collections::HashSet;
use std::f64::consts::PI;

pub const RULE: &str = "Each random helper is drawn from many times, in many seeds, ranges and list lengths: every value is checked to be in its documented range, and frequencies in equal-probability cells (chi-square), distribution functions (Kolmogorov-Smirnov), means and lag correlations are tested against the documented distribution in two stages (suspicion at 4 standard errors, confirmation at 6 with 12 times more fresh samples). Non-trivial: every draw; distinct counts the distinct drawn values kept (a part of them).";

pub fn run(run: &Run) {
    let n = 40000;
    run.cases("floats", run.n(24, 300), |c| {
        let (a, b) = match c.index % 4 {
            0 => (0., 1.),
            1 => (-1., 1.),
            _ => {
                let a = c.rng.sign() * c.rng.log(1e-3, 1e6);
                (a, a + c.rng.log(1e-3, 1e6))
            }
        };
        c.sample(|| format!("random_float({a}, {b})"));
        for _ in 0..n {
            let x = random_normal_float();
            ensure!((0. ..1.).contains(&x), "random_normal_float gives {x}");
            let y = random_float(a, b);
            // The upper end may be met by rounding
            ensure!(y >= a && y <= b && (y < b || b - a < 1e-9 * b.abs() || y - b == 0.), "random_float({a}, {b}) gives {y}");
        }
        expect_bins(c, "random_normal_float in 64 cells", n, &[1.; 64], &mut || ((random_normal_float() * 64.) as usize).min(63))?;
        expect_bins(c, &format!("random_float({a}, {b}) in 50 cells"), n, &[1.; 50], &mut || (((random_float(a, b) - a) / (b - a) * 50.) as usize).min(49))?;
        // Fine structure, and successive values
        expect_bins(c, "random_normal_float below cells of 2^-20", n, &[1.; 32], &mut || ((random_normal_float() * 1048576.).fract() * 32.) as usize)?;
        expect_bins(c, "pairs of successive random_normal_float", n, &[1.; 64], &mut || {
            ((random_normal_float() * 8.) as usize).min(7) * 8 + ((random_normal_float() * 8.) as usize).min(7)
        })?;
        let mut last = random_normal_float();
        expect_mean(c, "product of overlapping successive random_normal_float", n, 0.25, 1e-4, &mut || {
            let x = random_normal_float();
            let p = x * last;
            last = x;
            p
        })?;
        for _ in 0..100 {
            c.distinct_f(&[random_normal_float()]);
        }
        Ok(())
    });

    run.cases("integers", run.n(60, 600), |c| {
        let max = match c.index % 5 {
            0 => 1,
            1 => 2 + c.rng.below(40) as u32,
            2 => u32::MAX - c.rng.below(2) as u32,
            3 => 1 << c.rng.int(1, 31),
            _ => c.rng.log(2., 4e9) as u32,
        };
        c.sample(|| format!("random_uint32({max})"));
        for _ in 0..n {
            let x = random_uint32(max);
            ensure!(x < max, "random_uint32({max}) gives {x}");
        }
        let cells = max.min(40) as usize;
        let p: Vec<f64> = (0..cells)
            .map(|i| {
                // How many of the values are in the cell
                let edge = |i: usize| (i as u64 * max as u64).div_ceil(cells as u64);
                (edge(i + 1) - edge(i)) as f64
            })
            .collect();
        expect_bins(c, &format!("random_uint32({max}) in {cells} cells"), n, &p, &mut || (random_uint32(max) as u64 * cells as u64 / max as u64) as usize)?;
        if max > 2 && max % 2 == 0 {
            expect_frequency(c, &format!("random_uint32({max}) is odd"), n, 0.5, 0., &mut || random_uint32(max) % 2 == 1)?;
        }
        c.distinct(max as u64);
        Ok(())
    });

    run.cases("indices", run.n(60, 600), |c| {
        let len = match c.index % 4 {
            0 => 1,
            1 => 1 + c.rng.below(8) as usize,
            _ => c.rng.log(1., 300.) as usize,
        };
        let list = vec![0u8; len];
        c.sample(|| format!("random_element_index of {len}"));
        let mut seen = vec![false; len];
        for _ in 0..n.max(len * 200) {
            let i = random_element_index(&list);
            ensure!(i < len, "random_element_index of {len} elements gives {i}");
            seen[i] = true;
        }
        ensure!(seen.iter().all(|s| *s), "random_element_index of {len} elements never gives {:?}", seen.iter().position(|s| !s));
        expect_bins(c, &format!("random_element_index of {len}"), n, &vec![1.; len], &mut || random_element_index(&list))?;
        c.distinct(len as u64);
        Ok(())
    });

    // Equal shares of azimuth for some axes
    let azimuth = |p: V| ((p.1.atan2(p.0) / PI + 1.) * 6.).clamp(0., 11.) as usize;

    run.cases("vectors", run.n(16, 200), |c| {
        let (a, b) = if c.index % 2 == 0 { (-1., 1.) } else { (c.rng.range(-100., 0.), c.rng.range(0.1, 100.)) };
        c.sample(|| format!("random_vec3({a}, {b}) and vectors in ball, disc, on sphere and hemisphere"));
        for _ in 0..n {
            let p = V::of(random_vec3(a, b));
            ensure!(p.arr().iter().all(|x| *x >= a && *x <= b), "random_vec3({a}, {b}) gives {p:?}");
            let p = V::of(random_in_unit_sphere());
            ensure!(p.len() < 1. + 1e-12, "random_in_unit_sphere gives {p:?}");
            let p = V::of(random_unit_vector());
            ensure!((p.len() - 1.).abs() < 1e-12, "random_unit_vector gives {p:?}");
            let p = V::of(random_in_unit_disc());
            ensure!(p.len() < 1. + 1e-12 && p.2 == 0., "random_in_unit_disc gives {p:?}");
            let p = V::of(random_cosine_direction());
            ensure!((p.len() - 1.).abs() < 1e-12 && p.2 >= 0., "random_cosine_direction gives {p:?}");
        }
        expect_bins(c, "random_vec3 in 5x5x5 cells", n, &[1.; 125], &mut || {
            let p = (V::of(random_vec3(a, b)) - v(a, a, a)) / (b - a) * 5.;
            p.arr().iter().fold(0, |s, x| s * 5 + (*x as usize).min(4))
        })?;
        // Ball: radius cubed, height and azimuth are uniform
        expect_bins(c, "random_in_unit_sphere in equal cells", n, &[1.; 4 * 4 * 12], &mut || {
            let p = V::of(random_in_unit_sphere());
            let r = p.len();
            let (i, j) = (((r * r * r) * 4.).min(3.) as usize, ((p.2 / r + 1.) * 2.).clamp(0., 3.) as usize);
            (i * 4 + j) * 12 + azimuth(p)
        })?;
        expect_bins(c, "random_unit_vector in equal cells", n, &[1.; 10 * 12], &mut || {
            let p = V::of(random_unit_vector());
            ((p.2 + 1.) * 5.).clamp(0., 9.) as usize * 12 + azimuth(p)
        })?;
        expect_bins(c, "random_in_unit_disc in equal cells", n, &[1.; 8 * 12], &mut || {
            let p = V::of(random_in_unit_disc());
            ((p.0 * p.0 + p.1 * p.1) * 8.).min(7.) as usize * 12 + azimuth(p)
        })?;
        expect_bins(c, "random_cosine_direction in equal cells", n, &[1.; 10 * 12], &mut || {
            let p = V::of(random_cosine_direction());
            (p.2 * p.2 * 10.).min(9.) as usize * 12 + azimuth(p)
        })?;
        let axis = rand_dir(&mut c.rng);
        expect_distribution(c, &format!("height of random_unit_vector along {axis:?}"), n, &|x| (x + 1.) / 2., &mut || V::of(random_unit_vector()).dot(axis))?;
        expect_distribution(c, "height of random_cosine_direction", n, &|x| x * x, &mut || random_cosine_direction().z)?;
        expect_distribution(c, "radius of random_in_unit_sphere", n, &|x| x * x * x, &mut || V::of(random_in_unit_sphere()).len())?;
        // Successive vectors
        let mut last = V::of(random_unit_vector());
        expect_mean(c, "dot product of successive random_unit_vector", n, 0., 1e-4, &mut || {
            let p = V::of(random_unit_vector());
            let d = p.dot(last);
            last = p;
            d
        })?;
        for _ in 0..100 {
            c.distinct_f(&V::of(random_unit_vector()).arr());
        }
        Ok(())
    });

    run.cases_on("threads", run.n(10, 100), 1, |c| {
        // Threads that nobody has given a seed
        let draws: Vec<Vec<u64>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..32)
                .map(|_| s.spawn(|| (0..2000).map(|_| random_normal_float().to_bits()).collect::<Vec<_>>()))
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut seen = HashSet::new();
        for d in &draws {
            for w in d.windows(2) {
                c.eval();
                c.distinct(w[0] ^ w[1].rotate_left(20));
                ensure!(seen.insert((w[0], w[1])), "two threads (or one twice) draw the same values {:?}, {:?} in succession", f64::from_bits(w[0]), f64::from_bits(w[1]));
            }
        }
        // Between threads
        for k in 1..4 {
            let mut i = 0;
            let mut pairs = vec![];
            for a in 0..draws.len() {
                for j in 0..2000 {
                    pairs.push((f64::from_bits(draws[a][j]) - 0.5) * (f64::from_bits(draws[(a + k) % draws.len()][j]) - 0.5));
                }
            }
            let (m, se) = mean(pairs.len(), &mut || {
                i += 1;
                pairs[i - 1]
            });
            ensure!(m.abs() < 6.5 * se, "draws of different threads are correlated: {m} +- {se}");
        }
        Ok(())
    });
}
