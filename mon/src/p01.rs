//! Progress reports
use crate::core::*;
use crate::geom::*;
use crate::hooks::*;
use crate::scene::*;
use solstrale::post::{BloomPostProcessor, NopPostProcessor};
use solstrale::renderer::shader::*;
use solstrale::renderer::{RenderImageStrategy, RenderProgress, Renderer};
use std::sync::mpsc::channel;
use std::sync::Arc;
use std::time::{Duration, Instant, SystemTime};

pub const RULE: &str = "Uninterrupted renders of all kinds of sizes, sample counts, strategies, shaders, post processors and worker counts, with injected delays, are observed: number, order and content of the reports, the result, and speed, time left and choice of images against the times between which the renderer must have looked at the clock. The strategies are also asked directly about all kinds of times. Non-trivial: each report and each answer; counted by configuration and report.";

fn world(r: &mut Rng) -> solstrale::hittable::Hittables {
    let mut list = vec![far_light()];
    for _ in 0..r.int(0, 3) {
        let c = rand_in(r, 2.);
        let m = if r.chance(0.3) { light(rand_color(r)) } else { matte(rand_color(r)) };
        list.push(build(&rand_shape(r, c, 1.), m));
    }
    bvh(list)
}

fn renders(c: &mut Case, many: bool) -> Res {
    let r = &mut c.rng;
    let (w, h) = match r.below(4) {
        0 => (1, r.int(1, 20) as usize),
        1 => (r.int(1, 20) as usize, 1),
        _ => (r.int(1, 20) as usize, r.int(1, 20) as usize),
    };
    let (w, h) = if many { (1, r.int(1, 2) as usize) } else { (w, h) };
    let n = match r.below(5) {
        // More than fit into 16 bits
        _ if many => r.int(65000, 140000) as u32,
        0 => 1,
        1 => 2,
        2 => r.int(1, 150) as u32,
        _ => r.int(1, 20) as u32,
    };
    let shader = match r.below(4) {
        0 => AlbedoShader::new(),
        1 => NormalShader::new(),
        2 => SimpleShader::new(),
        _ => PathTracingShader::new(r.int(0, 4) as u32),
    };
    // Time that a sample takes at least, and up to which it varies
    let pause = if n < 30 && r.chance(0.6) { r.log(0.2, 6.) } else { 0. };
    let strategy = match r.below(5) {
        0 => RenderImageStrategy::EverySample,
        1 => RenderImageStrategy::OnlyFinal,
        2 => RenderImageStrategy::Interval(*r.pick(&[
            Duration::ZERO,
            Duration::from_nanos(1),
            Duration::from_secs(1000),
            Duration::MAX,
        ])),
        _ => RenderImageStrategy::Interval(Duration::from_secs_f64(r.log(0.3, 30.) * pause.max(0.2) / 1000.)),
    };
    let mut cfg = config(w, h, n, shader);
    cfg.render_image_strategy = strategy;
    cfg.post_processors = match r.below(4) {
        0 => vec![NopPostProcessor::new()],
        1 => vec![BloomPostProcessor::new(0.1, None, None).unwrap(), NopPostProcessor::new()],
        _ => vec![],
    };
    let threads = *r.pick(&[None, Some(1), Some(2), Some(5)]);
    let kind = match strategy {
        RenderImageStrategy::EverySample => "every".to_string(),
        RenderImageStrategy::OnlyFinal => "final".to_string(),
        RenderImageStrategy::Interval(d) => format!("interval {d:?}"),
    };
    let text = format!("{w}x{h}, {n} samples, {kind}, {pause} ms per sample, {threads:?} workers");
    let sc = scene(world(r), camera(v(0., 0., 5.), v(0., 0., 0.), 60.), rand_color(r), cfg);
    c.sample(|| text.clone());
    workers(threads);
    let log = Arc::new(Log::default());
    let l = log.clone();
    let seed = c.seed;
    let guard = Observing::new(Arc::new(move |point, sample, row| {
        if point == "row_start" && row == 0 && pause > 0. {
            let part = Rng::new(seed ^ sample as u64).f();
            std::thread::sleep(Duration::from_secs_f64(pause * part / 1000.));
        }
        if point == "report" || point == "sample_start" || point == "row_merged" {
            l.push(point, sample, row);
        }
    }));
    // Started, and received, by several threads, as users do
    let began = Instant::now();
    let mode = c.rng.below(3);
    let (reports, result) = match mode {
        0 => {
            let res = render(sc)?;
            (res.reports, res.result)
        }
        1 => {
            let (tx, rx) = channel();
            let (keep, abort_rx) = channel();
            let handle = std::thread::spawn(move || {
                no_panic(|| solstrale::ray_trace(sc, &tx, &abort_rx).map_err(|e| e.to_string()))
            });
            let reports: Vec<RenderProgress> = rx.iter().collect();
            drop(keep);
            let res = handle.join().map_err(|_| "panic")?;
            (reports, res.map_err(|p| format!("render panics: {p}"))?)
        }
        _ => {
            let renderer = Renderer::new(sc).map_err(|e| e.to_string())?;
            let (tx, rx) = channel();
            let (_keep, abort_rx) = channel();
            let res = no_panic(|| renderer.render(&tx, &abort_rx).map_err(|e| e.to_string()))
                .map_err(|p| format!("render panics: {p}"))?;
            drop(tx);
            (rx.iter().collect(), res)
        }
    };
    let ended = Instant::now();
    drop(guard);
    workers(None);
    result.map_err(|e| format!("{text}: render fails: {e}"))?;
    ensure!(reports.len() == n as usize, "{text}: {} reports", reports.len());
    let events = log.take();
    // The clock is looked at after the last row of a sample, and before its report is sent
    let first_start = events.iter().find(|e| e.point == "sample_start").map(|e| e.at);
    let mut lo = vec![began; n as usize];
    let mut hi = vec![ended; n as usize];
    for e in events.iter().filter(|e| (1..=n).contains(&e.sample)) {
        let i = e.sample as usize - 1;
        if e.point == "report" {
            hi[i] = hi[i].min(e.at);
        } else {
            lo[i] = lo[i].max(e.at);
        }
    }
    for i in 1..n as usize {
        lo[i] = lo[i].max(lo[i - 1]);
    }
    let margin = Duration::from_millis(1);
    let mut last_image: Option<usize> = None;
    for (i, rep) in reports.iter().enumerate() {
        let k = i as u32 + 1;
        c.eval();
        c.distinct(hash_of((&text, c.seed, k)));
        ensure!(
            (rep.progress - k as f64 / n as f64).abs() < 1e-12,
            "{text}: report {k} has progress {}", rep.progress
        );
        let last = k == n;
        ensure!(!last || rep.progress == 1., "{text}: last report has progress {}", rep.progress);
        // Time left and speed
        let fps = rep.fps.ok_or_else(|| format!("{text}: report {k} has no speed"))?;
        ensure!(fps >= 0., "{text}: report {k} has speed {fps}");
        if last {
            ensure!(rep.estimated_time_left == Duration::ZERO, "{text}: time left at the end is {:?}", rep.estimated_time_left);
        }
        let start_hi = first_start.unwrap_or(ended);
        let min_elapsed = lo[i].saturating_duration_since(start_hi).saturating_sub(margin).as_secs_f64();
        let max_elapsed = (hi[i].saturating_duration_since(began) + margin).as_secs_f64();
        let per = (n - k) as f64 / k as f64;
        let left = rep.estimated_time_left.as_secs_f64();
        ensure!(
            left >= min_elapsed * per * (1. - 1e-5) - 1e-6 && left <= max_elapsed * per * (1. + 1e-5) + 1e-6,
            "{text}: report {k} estimates {left} s, should be in {} to {} ({min_elapsed} to {max_elapsed} s passed)",
            min_elapsed * per, max_elapsed * per
        );
        ensure!(
            fps >= k as f64 / max_elapsed * (1. - 1e-5) && (min_elapsed == 0. || fps <= k as f64 / min_elapsed * (1. + 1e-5)),
            "{text}: report {k} has speed {fps}, {min_elapsed} to {max_elapsed} s passed"
        );
        // Images
        let has = rep.render_image.is_some();
        if let Some(img) = &rep.render_image {
            c.count("images");
            ensure!(
                (img.width() as usize, img.height() as usize) == (w, h),
                "{text}: report {k} has an image of {:?}", img.dimensions()
            );
        }
        ensure!(has || !last, "{text}: last report has no image");
        match strategy {
            RenderImageStrategy::EverySample => ensure!(has, "{text}: report {k} has no image"),
            RenderImageStrategy::OnlyFinal => ensure!(has == last, "{text}: report {k} has an image: {has}"),
            RenderImageStrategy::Interval(d) => {
                if !last {
                    // Whether the first image is due right away is left open
                    let from = last_image.map(|j| hi[j]).unwrap_or(ended.min(start_hi));
                    let surely = lo[i].saturating_duration_since(from);
                    if surely > d.saturating_add(margin) {
                        c.count("images that are due");
                        ensure!(has, "{text}: report {k} has no image, {surely:?} passed since the last one");
                    }
                    if let Some(j) = last_image {
                        let at_most = hi[i].saturating_duration_since(lo[j]) + margin;
                        if at_most <= d {
                            c.count("images that are not yet due");
                            ensure!(!has, "{text}: report {k} has an image, just {at_most:?} passed since the last one");
                        }
                    }
                }
            }
        }
        if has {
            last_image = Some(i);
        }
    }
    c.add("reports", n as u64);
    Ok(())
}

pub fn run(run: &Run) {
    run.cases_on("renders", run.n(2000, 40000), 1, |c| renders(c, false));
    run.cases_on("very many samples", run.n(2, 20), 1, |c| renders(c, true));

    // The clock is what this says it is, so that it is known at which time each report is made
    run.cases_on("set clock", run.n(1500, 20000), 1, |c| {
        let r = &mut c.rng;
        let n = if r.chance(0.2) { r.int(1, 300) } else { r.int(1, 25) } as u32;
        let (w, h) = (r.int(1, 4) as usize, r.int(1, 4) as usize);
        // Pace in nanoseconds per sample, with breaks
        let pace = r.log(1e2, 1e12);
        let start = r.int(1_000_000_000, 2_000_000_000) * 1_000_000_000 + r.int(0, 999_999_999);
        let back = r.chance(0.25);
        let mut t = start;
        let times: Vec<i64> = (0..n)
            .map(|_| {
                t += match r.below(8) {
                    0 if back => -((r.log(1., 1e4) * pace) as i64).min(t / 2),
                    1 => 0,
                    2 => (pace * r.log(1., 10.)) as i64,
                    _ => (pace * r.f()) as i64,
                };
                t
            })
            .collect();
        let d = Duration::from_nanos(match r.below(6) {
            0 => 0,
            // Exactly what passes
            1 => (times[n as usize / 2] - if n > 1 { times[n as usize / 2 - 1] } else { start }).unsigned_abs(),
            _ => (pace * r.log(0.05, 10.)) as u64,
        });
        let strategy = match r.below(5) {
            0 => RenderImageStrategy::EverySample,
            1 => RenderImageStrategy::OnlyFinal,
            _ => RenderImageStrategy::Interval(d),
        };
        let mut cfg = config(w, h, n, r.pick(&[AlbedoShader::new(), PathTracingShader::new(3)]).clone());
        cfg.render_image_strategy = strategy;
        let text = format!("{w}x{h}, {n} samples, image every {d:?}, strategy {}, started at {start} ns, reports at {times:?}", match strategy {
            RenderImageStrategy::EverySample => "every",
            RenderImageStrategy::OnlyFinal => "final",
            _ => "interval",
        });
        let sc = scene(world(r), camera(v(0., 0., 5.), v(0., 0., 0.), 60.), rand_color(r), cfg);
        let renderer = Renderer::new(sc).map_err(|e| e.to_string())?;
        let (tx, rx) = channel();
        let (_keep, abort_rx) = channel();
        let at = times.clone();
        let moved = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let moves = moved.clone();
        let guard = Observing::new(Arc::new(move |point, sample, _| {
            if point == "sample_start" && (1..=at.len() as u32).contains(&sample) {
                crate::clock::set(at[sample as usize - 1]);
                moves.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
        }));
        crate::clock::set(start);
        let res = no_panic(|| renderer.render(&tx, &abort_rx).map_err(|e| e.to_string()));
        let read = crate::clock::reset();
        drop(guard);
        drop(tx);
        res.map_err(|p| format!("{text}: render panics: {p}"))?.map_err(|e| format!("{text}: render fails: {e}"))?;
        let reports: Vec<RenderProgress> = rx.iter().collect();
        ensure!(reports.len() == n as usize, "{text}: {} reports", reports.len());
        c.add("readings of the set clock", read);
        // Only where it was this thread that worked through the samples
        if moved.load(std::sync::atomic::Ordering::Relaxed) != n as usize || read == 0 {
            c.count("renders that did not ask the set clock");
            return Ok(());
        }
        let monotone = times.windows(2).all(|w| w[0] <= w[1]) && times[0] >= start;
        let mut last: Option<i64> = None;
        for (i, rep) in reports.iter().enumerate() {
            let k = i as u32 + 1;
            c.eval();
            c.distinct(hash_of((c.seed, k)));
            ensure!((rep.progress - k as f64 / n as f64).abs() < 1e-12, "{text}: report {k} has progress {}", rep.progress);
            let fps = rep.fps.ok_or_else(|| format!("{text}: report {k} has no speed"))?;
            ensure!(fps >= 0., "{text}: report {k} has speed {fps}");
            let left = rep.estimated_time_left.as_secs_f64();
            if k == n {
                ensure!(left == 0., "{text}: time left at the end is {left}");
            }
            let has = rep.render_image.is_some();
            if let Some(img) = &rep.render_image {
                ensure!(img.dimensions() == (w as u32, h as u32), "{text}: report {k} has an image of {:?}", img.dimensions());
            }
            if monotone {
                c.count("reports at a known time");
                let passed = (times[i] - start) as f64 * 1e-9;
                let want = passed * (n - k) as f64 / k as f64;
                ensure!((left - want).abs() <= 1e-6 * want + 1e-9 * n as f64, "{text}: report {k} estimates {left} s, should be {want}");
                ensure!((fps * passed - k as f64).abs() <= 1e-6 * k as f64 || passed == 0., "{text}: report {k} has speed {fps} after {passed} s");
            } else {
                c.count("reports with a clock that goes back");
            }
            match strategy {
                _ if k == n => ensure!(has, "{text}: last report has no image"),
                RenderImageStrategy::EverySample => ensure!(has, "{text}: report {k} has no image"),
                RenderImageStrategy::OnlyFinal => ensure!(!has, "{text}: report {k} has an image"),
                RenderImageStrategy::Interval(d) => {
                    if let (Some(last), true) = (last, monotone) {
                        let due = (times[i] - last) as u128 > d.as_nanos();
                        c.count(if due { "images due by the set clock" } else { "images not yet due by the set clock" });
                        ensure!(has == due, "{text}: report {k} has an image: {has}, the last one was at {last}");
                    }
                }
            }
            if has {
                last = Some(times[i]);
            }
        }
        Ok(())
    });

    run.cases("strategy", run.n(100000, 2000000), |c| {
        let r = &mut c.rng;
        let total = if r.chance(0.1) { u32::MAX } else { r.log(1., 1e6) as u32 };
        let sample = match r.below(3) {
            0 => total,
            1 => total.saturating_sub(1).max(1),
            _ => 1 + r.below(total as u64) as u32,
        };
        let t0 = SystemTime::UNIX_EPOCH + Duration::from_nanos(r.below(4_000_000_000_000_000_000));
        let gap = Duration::from_nanos(if r.chance(0.1) { 0 } else { r.log(1., 1e19) as u64 });
        let back = r.chance(0.15);
        let (last, now) = if back { (t0 + gap, t0) } else { (t0, t0 + gap) };
        let last = if r.chance(0.1) { SystemTime::UNIX_EPOCH } else { last };
        let passed = now.duration_since(last).ok();
        let d = match (r.below(4), passed) {
            (0, Some(p)) => p,
            (1, Some(p)) => p.saturating_add(Duration::from_nanos(1)),
            (2, Some(p)) => p.saturating_sub(Duration::from_nanos(1)),
            _ => Duration::from_nanos(r.log(1., 1e19) as u64),
        };
        let fin = sample == total;
        c.evals(3);
        c.distinct(hash_of((sample, total, now, last, d)));
        ensure!(
            RenderImageStrategy::EverySample.should_generate_image(sample, total, now, last),
            "EverySample gives no image"
        );
        ensure!(
            RenderImageStrategy::OnlyFinal.should_generate_image(sample, total, now, last) == fin,
            "OnlyFinal: sample {sample} of {total}"
        );
        let due = passed.is_some_and(|p| p > d);
        let got = RenderImageStrategy::Interval(d).should_generate_image(sample, total, now, last);
        ensure!(
            got == (fin || due),
            "Interval({d:?}): sample {sample} of {total}, {passed:?} since the last: {got}"
        );
        Ok(())
    });
}
