//! Aborting, and receivers that go away
use crate::core::*;
use crate::geom::*;
use crate::hooks::*;
use crate::scene::*;
use solstrale::post::{BloomPostProcessor, NopPostProcessor, OidnPostProcessor};
use solstrale::renderer::shader::*;
use solstrale::renderer::{RenderImageStrategy, RenderProgress, Renderer, Scene};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub const RULE: &str = "Abort signals are sent, abort senders and report receivers are dropped at every observation point of renders of all kinds (before the start, between and within samples, rows, post processing and reports), and from other threads at random times; the reports that still come and the result are observed. Non-trivial: renders where something happens before the end; counted by configuration, event and its place.";

const POINTS: [&str; 6] = ["sample_start", "row_start", "row_done", "row_merged", "report", "reported"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Abort,
    AbortMany,
    DropAbortSender,
    DropReceiver,
    DropReceiverAndAbort,
}

fn make(r: &mut Rng, n: u32) -> (Scene, String) {
    let (w, h) = (r.int(1, 8) as usize, r.int(1, 8) as usize);
    let strategy = r.below(3);
    let mut cfg = config(w, h, n, if r.chance(0.5) { AlbedoShader::new() } else { PathTracingShader::new(3) });
    cfg.render_image_strategy = match strategy {
        0 => RenderImageStrategy::EverySample,
        1 => RenderImageStrategy::OnlyFinal,
        _ => RenderImageStrategy::Interval(Duration::from_micros(r.below(1000))),
    };
    let post = r.below(4);
    cfg.post_processors = match post {
        0 => vec![NopPostProcessor::new(), BloomPostProcessor::new(0.2, None, None).unwrap()],
        1 => vec![BloomPostProcessor::new(0.2, None, None).unwrap(), OidnPostProcessor::new()],
        _ => vec![],
    };
    let list = vec![far_light(), build(&Shape::Sphere(v(0., 0., 0.), 1.), matte(v(0.3, 0.6, 0.9)))];
    (
        scene(bvh(list), camera(v(0., 0., 3.), v(0., 0., 0.), 40.), v(0.2, 0.4, 0.6), cfg),
        format!("{w}x{h}, {n} samples, strategy {strategy}, post processing {post}"),
    )
}

/// Reports before this one are in order
fn in_order(reports: &[RenderProgress], n: u32, text: &str) -> Res {
    for (i, rep) in reports.iter().enumerate() {
        ensure!(
            (rep.progress - (i + 1) as f64 / n as f64).abs() < 1e-12,
            "{text}: report {} has progress {}", i + 1, rep.progress
        );
    }
    Ok(())
}

pub fn run(run: &Run) {
    run.cases_on("at each point", run.n(12000, 200000), 1, |c| {
        let r = &mut c.rng;
        let n = r.int(1, 9) as u32;
        let (sc, text) = make(r, n);
        let what = *r.pick(&[
            What::Abort,
            What::Abort,
            What::AbortMany,
            What::DropAbortSender,
            What::DropReceiver,
            What::DropReceiver,
            What::DropReceiverAndAbort,
        ]);
        let early = r.chance(0.1);
        let at_point = *r.pick(&POINTS);
        let at_sample = r.int(1, n as i64) as u32;
        let at_call = r.int(1, 3) as u32;
        let text = if early {
            format!("{text}: {what:?} before the start")
        } else {
            format!("{text}: {what:?} at {at_point} of sample {at_sample}")
        };
        c.sample(|| text.clone());
        let (tx, rx) = channel();
        let (abort_tx, abort_rx) = channel();
        let rx = Arc::new(Mutex::new(Some(rx)));
        let abort_tx = Arc::new(Mutex::new(Some(abort_tx)));
        // Any message is a signal
        let signal = c.rng.chance(0.8);
        let act = {
            let (rx, abort_tx) = (rx.clone(), abort_tx.clone());
            move || {
                let mut sender = abort_tx.lock().unwrap();
                let send = |s: &Option<Sender<bool>>| {
                    if let Some(s) = s {
                        let _ = s.send(signal);
                    }
                };
                match what {
                    What::Abort => send(&sender),
                    What::AbortMany => {
                        for _ in 0..3 {
                            send(&sender);
                        }
                        *sender = None;
                    }
                    What::DropAbortSender => *sender = None,
                    What::DropReceiver => *rx.lock().unwrap() = None,
                    What::DropReceiverAndAbort => {
                        *rx.lock().unwrap() = None;
                        send(&sender);
                    }
                }
            }
        };
        // Number of reports that had been sent when it happened, and the last sample that was begun
        let sent = Arc::new(AtomicU32::new(0));
        let begun = Arc::new(AtomicU32::new(0));
        let happened = Arc::new(Mutex::new(None));
        if early {
            act();
            *happened.lock().unwrap() = Some(0);
        }
        let guard = {
            let (sent, begun, happened) = (sent.clone(), begun.clone(), happened.clone());
            let calls = AtomicU32::new(0);
            Observing::new(Arc::new(move |point, sample, _| {
                if point == "reported" {
                    sent.store(sample, Ordering::SeqCst);
                }
                if point == "row_start" {
                    begun.fetch_max(sample, Ordering::SeqCst);
                }
                if !early && point == at_point && sample == at_sample {
                    let nth = calls.fetch_add(1, Ordering::SeqCst) + 1;
                    let last = !point.starts_with("row") || nth == at_call;
                    let mut done = happened.lock().unwrap();
                    if last && done.is_none() {
                        *done = Some(sent.load(Ordering::SeqCst));
                        act();
                    }
                }
            }))
        };
        let use_renderer = c.rng.chance(0.3);
        let result = no_panic(|| {
            if use_renderer {
                Renderer::new(sc).and_then(|r| r.render(&tx, &abort_rx)).map_err(|e| e.to_string())
            } else {
                solstrale::ray_trace(sc, &tx, &abort_rx).map_err(|e| e.to_string())
            }
        })
        .map_err(|p| format!("{text}: panics: {p}"))?;
        drop(guard);
        drop(tx);
        let reports: Vec<RenderProgress> = rx.lock().unwrap().take().map_or(vec![], |r| r.iter().collect());
        let begun = begun.load(Ordering::SeqCst);
        c.eval();
        let happened = *happened.lock().unwrap();
        let Some(before) = happened else {
            // The row was not among those there are
            c.count("renders where nothing happened");
            ensure!(result.is_ok() && reports.len() == n as usize, "{text}: without event {result:?}, {} reports", reports.len());
            return Ok(());
        };
        c.distinct(hash_of(&text));
        c.count(&format!("{what:?}"));
        match what {
            What::Abort | What::AbortMany => {
                in_order(&reports, n, &text)?;
                ensure!(result.is_ok(), "{text}: fails: {result:?}");
                let allowed = if early { 0 } else { before + 1 };
                ensure!(reports.len() as u32 <= allowed, "{text}: {before} reports had been sent, and there are {}", reports.len());
            }
            What::DropAbortSender => {
                in_order(&reports, n, &text)?;
                ensure!(result.is_ok(), "{text}: fails: {result:?}");
                ensure!(reports.len() as u32 == n, "{text}: {} reports", reports.len());
                ensure!(reports.last().unwrap().render_image.is_some(), "{text}: no image at the end");
            }
            What::DropReceiver => {
                if before == n {
                    ensure!(result.is_ok(), "{text}: nothing is left to send, but fails: {result:?}");
                } else {
                    ensure!(result.is_err(), "{text}: succeeds");
                }
                ensure!(begun <= before + 1, "{text}: {before} reports had been sent, still sample {begun} is begun");
            }
            What::DropReceiverAndAbort => {
                ensure!(begun <= before + 1, "{text}: {before} reports had been sent, still sample {begun} is begun");
            }
        }
        Ok(())
    });

    run.cases_on("changes nothing", run.n(300, 3000), 1, |c| {
        // The same image with and without a sender of abort signals
        let n = c.rng.int(1, 6) as u32;
        let mut rng = c.rng.clone();
        let mut images = vec![];
        for mode in 0..3 {
            let mut same = rng.clone();
            let (w, h) = (same.int(1, 12) as usize, same.int(1, 12) as usize);
            let mut cfg = config(w, h, n, NormalShader::new());
            cfg.render_image_strategy = RenderImageStrategy::EverySample;
            let world = bvh(vec![far_light(), build(&Shape::Quad(v(-900., -900., -1.), v(1800., 0., 0.), v(0., 1800., 0.)), matte(v(0.5, 0.5, 0.5)))]);
            let sc = scene(world, camera(v(0., 0., 3.), v(0., 0., 0.), 40.), v(0., 0., 0.), cfg);
            let (tx, rx) = channel();
            let (abort_tx, abort_rx) = channel::<bool>();
            let other = abort_tx.clone();
            match mode {
                0 => drop((abort_tx, other)),
                1 => {
                    let t = std::thread::spawn(move || {
                        drop(abort_tx);
                        drop(other);
                    });
                    let _ = t.join();
                }
                _ => {
                    std::thread::spawn(move || {
                        std::thread::sleep(Duration::from_millis(1));
                        drop((abort_tx, other))
                    });
                }
            }
            let res = no_panic(|| solstrale::ray_trace(sc, &tx, &abort_rx).map_err(|e| e.to_string()))
                .map_err(|p| format!("panics: {p}"))?;
            drop(tx);
            ensure!(res.is_ok(), "render without sender of abort signals fails: {res:?}");
            let reports: Vec<RenderProgress> = rx.iter().collect();
            ensure!(reports.len() == n as usize, "{} of {n} reports without sender of abort signals", reports.len());
            images.push(reports.into_iter().map(|r| r.render_image.map(|i| i.into_raw())).collect::<Vec<_>>());
            c.eval();
        }
        rng.next();
        c.distinct(hash_of(&images[0]));
        ensure!(images[0] == images[1] && images[1] == images[2], "images depend on the sender of abort signals");
        Ok(())
    });

    run.cases_on("from elsewhere", run.n(1500, 20000), 1, |c| {
        let r = &mut c.rng;
        // Far more than can be rendered in the time
        let n = 50_000_000;
        let (sc, text) = make(r, n);
        let after = r.int(0, 30) as usize;
        let wait = Duration::from_micros(r.log(1., 3000.) as u64);
        let what = *r.pick(&[What::Abort, What::DropReceiver, What::DropReceiverAndAbort]);
        let text = format!("{text}: {what:?} after {after} reports and {wait:?}");
        c.sample(|| text.clone());
        let (tx, rx): (Sender<RenderProgress>, Receiver<RenderProgress>) = channel();
        let (abort_tx, abort_rx) = channel();
        let done = Arc::new(AtomicBool::new(false));
        let done2 = done.clone();
        let handle = std::thread::spawn(move || {
            let res = no_panic(|| solstrale::ray_trace(sc, &tx, &abort_rx).map_err(|e| e.to_string()));
            done2.store(true, Ordering::SeqCst);
            res
        });
        let mut count = 0u64;
        for _ in 0..after {
            if rx.recv().is_err() {
                break;
            }
            count += 1;
        }
        std::thread::sleep(wait);
        let mut rx = Some(rx);
        if what != What::DropReceiver {
            if what == What::DropReceiverAndAbort {
                rx = None;
            }
            let _ = abort_tx.send(true);
        } else {
            rx = None;
        }
        if let Some(rx) = rx {
            // All of these may have been sent before the signal, but just one more
            while let Ok(_r) = rx.try_recv() {
                count += 1;
            }
            let mut more = 0;
            while rx.recv().is_ok() {
                more += 1;
                if more > 1 {
                    break;
                }
            }
            ensure!(more <= 1, "{text}: more than one report came after the signal");
            c.add("reports", count + more);
        }
        // If it goes on, this is found by the limit on the time of a case; but do not wait that long
        let since = std::time::Instant::now();
        while !done.load(Ordering::SeqCst) {
            ensure!(since.elapsed() < Duration::from_secs(20), "{text}: render does not end");
            std::thread::sleep(Duration::from_micros(50));
        }
        let res = handle.join().map_err(|_| "panic")?.map_err(|p| format!("{text}: panics: {p}"))?;
        c.eval();
        c.distinct(hash_of((&text, c.seed)));
        c.count(&format!("{what:?} from elsewhere"));
        match what {
            What::Abort => ensure!(res.is_ok(), "{text}: fails: {res:?}"),
            What::DropReceiver => ensure!(res.is_err(), "{text}: succeeds"),
            _ => {}
        }
        Ok(())
    });

    run.cases_on("again", run.n(300, 4000), 1, |c| {
        // An aborted render has no influence on the next one of the same renderer
        let n = c.rng.int(2, 8) as u32;
        let (sc, text) = make(&mut c.rng, n);
        let renderer = Renderer::new(sc).map_err(|e| e.to_string())?;
        let (abort_tx, abort_rx) = channel();
        let (tx, rx) = channel();
        abort_tx.send(true).unwrap();
        renderer.render(&tx, &abort_rx).map_err(|e| format!("{text}: {e}"))?;
        c.evals(2);
        ensure!(rx.try_iter().count() == 0, "{text}: reports in spite of an abort signal before the start");
        let (_keep, abort_rx) = channel();
        renderer.render(&tx, &abort_rx).map_err(|e| format!("{text}: {e}"))?;
        let reports: Vec<RenderProgress> = rx.try_iter().collect();
        c.distinct(hash_of((&text, c.seed)));
        ensure!(reports.len() == n as usize, "{text}: {} reports after an aborted render", reports.len());
        in_order(&reports, n, &text)
    });
}
