//! Tests of distributions. Each is done in two stages: a suspicion is only a failure when it is
//! confirmed with many more fresh samples
use crate::core::Case;

/// Deviation in standard errors that raises a suspicion
pub const SUSPECT: f64 = 4.;
/// Deviation in standard errors that confirms it
pub const CONFIRM: f64 = 6.;
/// How many times more samples are drawn for the confirmation
pub const MORE: usize = 12;

/// Mean and standard error
pub fn mean(n: usize, f: &mut dyn FnMut() -> f64) -> (f64, f64) {
    let mut m = 0.;
    let mut s = 0.;
    for i in 0..n {
        let x = f();
        let d = x - m;
        m += d / (i + 1) as f64;
        s += d * (x - m);
    }
    (m, (s / (n as f64 - 1.) / n as f64).sqrt())
}

/// The mean of f is expected to be as given, up to the tolerance
pub fn expect_mean(
    c: &mut Case,
    what: &str,
    n: usize,
    expected: f64,
    tolerance: f64,
    f: &mut dyn FnMut() -> f64,
) -> Result<(), String> {
    c.evals(n as u64);
    c.count("distribution tests");
    let (m, se) = mean(n, f);
    if (m - expected).abs() <= tolerance + SUSPECT * se {
        return Ok(());
    }
    c.count("distribution tests repeated with more samples");
    let n2 = n * MORE;
    c.evals(n2 as u64);
    let (m2, se2) = mean(n2, f);
    if (m2 - expected).abs() <= tolerance + CONFIRM * se2 {
        return Ok(());
    }
    Err(format!(
        "{what}: mean is {m2} +- {se2} (with {n} samples {m} +- {se}), expected is {expected} (tolerance {tolerance})"
    ))
}

/// Several means that are taken from the same samples
pub fn expect_means(
    c: &mut Case,
    what: &str,
    n: usize,
    expected: &[f64],
    tolerance: f64,
    f: &mut dyn FnMut(&mut [f64]),
) -> Result<(), String> {
    let k = expected.len();
    let mut draw = |n: usize| -> Vec<(f64, f64)> {
        let mut x = vec![0.; k];
        let mut m = vec![0.; k];
        let mut s = vec![0.; k];
        for i in 0..n {
            f(&mut x);
            for j in 0..k {
                let d = x[j] - m[j];
                m[j] += d / (i + 1) as f64;
                s[j] += d * (x[j] - m[j]);
            }
        }
        (0..k)
            .map(|j| (m[j], (s[j] / (n as f64 - 1.) / n as f64).sqrt()))
            .collect()
    };
    c.evals(n as u64);
    c.add("distribution tests", k as u64);
    let first = draw(n);
    let off = |r: &[(f64, f64)], z: f64| {
        (0..k).find(|&j| !((r[j].0 - expected[j]).abs() <= tolerance + z * r[j].1))
    };
    let Some(j1) = off(&first, SUSPECT) else {
        return Ok(());
    };
    c.count("distribution tests repeated with more samples");
    c.evals((n * MORE) as u64);
    let second = draw(n * MORE);
    match off(&second, CONFIRM) {
        None => Ok(()),
        Some(j) => Err(format!(
            "{what} [{j}]: mean is {} +- {} (with fewer samples, [{j1}] {} +- {}), expected is {} (tolerance {tolerance})",
            second[j].0, second[j].1, first[j1].0, first[j1].1, expected[j]
        )),
    }
}

/// How far the counts are from the expected ones, as a standard normal deviation.
/// Bins with few expected counts are put together.
pub fn chi2_z(counts: &[f64], expected: &[f64]) -> f64 {
    let mut x = 0.;
    let mut k = 0;
    let (mut small_c, mut small_e) = (0., 0.);
    for (c, e) in counts.iter().zip(expected) {
        if *e < 30. {
            small_c += c;
            small_e += e;
        } else {
            x += (c - e) * (c - e) / e;
            k += 1;
        }
    }
    if small_e >= 30. {
        x += (small_c - small_e) * (small_c - small_e) / small_e;
        k += 1;
    } else if small_c > small_e + 10. * (small_e + 1.).sqrt() + 10. {
        return f64::INFINITY;
    }
    if k < 2 {
        // All in one bin
        return if k == 1 { x.sqrt() } else { 0. };
    }
    let dof = (k - 1) as f64;
    // Wilson and Hilferty
    ((x / dof).cbrt() - (1. - 2. / (9. * dof))) / (2. / (9. * dof)).sqrt()
}

/// The bins are expected to be hit with the given probabilities.
pub fn expect_bins(
    c: &mut Case,
    what: &str,
    n: usize,
    probabilities: &[f64],
    f: &mut dyn FnMut() -> usize,
) -> Result<(), String> {
    let total: f64 = probabilities.iter().sum();
    let mut draw = |n: usize| {
        let mut counts = vec![0.; probabilities.len()];
        for _ in 0..n {
            counts[f()] += 1.;
        }
        let expected: Vec<f64> = probabilities.iter().map(|p| p / total * n as f64).collect();
        (chi2_z(&counts, &expected), counts, expected)
    };
    c.evals(n as u64);
    c.count("distribution tests");
    let (z, ..) = draw(n);
    if z <= SUSPECT {
        return Ok(());
    }
    c.count("distribution tests repeated with more samples");
    c.evals((n * MORE) as u64);
    let (z2, counts, expected) = draw(n * MORE);
    if z2 <= CONFIRM {
        return Ok(());
    }
    let worst = (0..counts.len())
        .max_by(|&a, &b| {
            let d = |i: usize| (counts[i] - expected[i]).abs() / (expected[i] + 1.).sqrt();
            d(a).total_cmp(&d(b))
        })
        .unwrap();
    Err(format!(
        "{what}: frequencies deviate by {z2:.1} standard deviations (before: {z:.1}), most in bin {worst}: {} instead of {:.1} of {}",
        counts[worst], expected[worst], n * MORE
    ))
}

/// An event is expected to have the given probability
pub fn expect_frequency(
    c: &mut Case,
    what: &str,
    n: usize,
    p: f64,
    tolerance: f64,
    f: &mut dyn FnMut() -> bool,
) -> Result<(), String> {
    let mut draw = |n: usize| (0..n).filter(|_| f()).count() as f64;
    let limit = |n: usize, z: f64| {
        let n = n as f64;
        z * (n * p * (1. - p)).max(0.).sqrt() + tolerance * n + if p > 0. && p < 1. { z * z } else { 0. }
    };
    c.evals(n as u64);
    c.count("distribution tests");
    let k = draw(n);
    if (k - p * n as f64).abs() <= limit(n, SUSPECT) {
        return Ok(());
    }
    c.count("distribution tests repeated with more samples");
    let n2 = n * MORE;
    c.evals(n2 as u64);
    let k2 = draw(n2);
    if (k2 - p * n2 as f64).abs() <= limit(n2, CONFIRM) {
        return Ok(());
    }
    Err(format!(
        "{what}: happened {k2} of {n2} times (before: {k} of {n}), expected is a probability of {p}"
    ))
}

/// Kolmogorov-Smirnov: the values are expected to follow the distribution
pub fn expect_distribution(
    c: &mut Case,
    what: &str,
    n: usize,
    cdf: &dyn Fn(f64) -> f64,
    f: &mut dyn FnMut() -> f64,
) -> Result<(), String> {
    let mut draw = |n: usize| {
        let mut xs: Vec<f64> = (0..n).map(|_| f()).collect();
        xs.sort_by(f64::total_cmp);
        let mut d: f64 = 0.;
        let mut at = f64::NAN;
        for (i, x) in xs.iter().enumerate() {
            let p = cdf(*x);
            let e = (p - i as f64 / n as f64).abs().max(((i + 1) as f64 / n as f64 - p).abs());
            if !(e <= d) {
                d = e;
                at = *x;
            }
        }
        (d * (n as f64).sqrt(), at)
    };
    c.evals(n as u64);
    c.count("distribution tests");
    // P(D sqrt n > x) < 2 exp(-2 x^2): 2.2 is 1e-4, 3.4 is 2e-10
    let (d, _) = draw(n);
    if d <= 2.2 {
        return Ok(());
    }
    c.count("distribution tests repeated with more samples");
    c.evals((n * MORE) as u64);
    let (d2, at) = draw(n * MORE);
    if d2 <= 3.4 {
        return Ok(());
    }
    Err(format!(
        "{what}: distribution deviates, Kolmogorov-Smirnov statistic {d2:.2} (before: {d:.2}) at {at}"
    ))
}
