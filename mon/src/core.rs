//! Running of cases, and bookkeeping of what the monitors observed
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// The outcome of one case: an error is a violation of the property
pub type Res = Result<(), String>;

/// Own random numbers, so that they do not depend on those of the code under test
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0 to <1
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    /// Evenly spread over the orders of magnitude
    pub fn log(&mut self, a: f64, b: f64) -> f64 {
        (self.range(a.ln(), b.ln())).exp()
    }
    /// 0 to n-1
    pub fn below(&mut self, n: u64) -> u64 {
        (self.f() * n as f64) as u64
    }
    /// a to b, inclusive
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
    pub fn sign(&mut self) -> f64 {
        if self.chance(0.5) {
            1.
        } else {
            -1.
        }
    }
    pub fn normal(&mut self) -> f64 {
        let u = 1. - self.f();
        let v = self.f();
        (-2. * u.ln()).sqrt() * (2. * std::f64::consts::PI * v).cos()
    }
}

pub fn hash_of<T: Hash>(t: T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn mix(seed: u64, text: &str, index: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in text.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    Rng::new(h ^ index.wrapping_mul(0xD1342543DE82EF95)).next()
}

#[derive(Clone)]
pub struct Violation {
    pub workload: String,
    pub index: u64,
    pub message: String,
}

#[derive(Default)]
struct State {
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: BTreeMap<String, Vec<String>>,
    violations: Vec<Violation>,
    known: BTreeMap<String, String>,
}

pub struct Run {
    pub prop: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<(String, Option<u64>)>,
    pub rule: &'static str,
    pub start: Instant,
    pub budget: Duration,
    out: Option<String>,
    state: Mutex<State>,
    /// What each worker is doing since when
    busy: Mutex<BTreeMap<usize, (String, u64, Instant)>>,
}

/// One execution of a workload
pub struct Case<'a> {
    pub rng: Rng,
    pub index: u64,
    pub seed: u64,
    pub run: &'a Run,
    workload: &'a str,
    pub evals: u64,
    pub distinct: Vec<u64>,
    pub counters: BTreeMap<String, u64>,
    sample: Option<String>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

/// Panics are an observation here: keep what they say instead of printing it
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        PANIC.with(|p| *p.borrow_mut() = Some(text.clone()));
        if let Ok(mut l) = LAST_PANIC.lock() {
            *l = Some(text);
        }
    }));
}

/// Runs, and turns a panic into its message
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .or_else(|| LAST_PANIC.lock().ok().and_then(|mut l| l.take()))
            .unwrap_or_else(|| "panic".into())
    })
}

impl Case<'_> {
    /// Something was evaluated against the oracle
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    /// A distinct non-trivial evaluation, identified by its hash
    pub fn distinct(&mut self, h: u64) {
        self.distinct.push(h);
    }
    pub fn distinct_f(&mut self, v: &[f64]) {
        let mut h: u64 = 0x1234567;
        for x in v {
            h = Rng::new(h ^ x.to_bits()).next();
        }
        self.distinct.push(h);
    }
    pub fn count(&mut self, what: &str) {
        self.add(what, 1);
    }
    pub fn add(&mut self, what: &str, n: u64) {
        match self.counters.get_mut(what) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(what.to_string(), n);
            }
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() && self.index < 3 {
            self.sample = Some(f());
        }
    }
    pub fn thorough(&self) -> bool {
        self.run.thorough
    }
    /// Record an occurrence of a finding that is listed as known
    pub fn known(&mut self, key: &str, what: String) {
        self.count(&format!("known finding {key}"));
        self.run
            .state
            .lock()
            .unwrap()
            .known
            .entry(key.to_string())
            .or_insert(what);
    }
}

/// Fails the case unless the condition holds
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {

        if !($cond) {
            return Err(format!($($arg)*));
        }
    };
}

impl Run {
    pub fn new(
        prop: &'static str,
        rule: &'static str,
        thorough: bool,
        seed: u64,
        only: Option<(String, Option<u64>)>,
        budget: Duration,
        out: Option<String>,
    ) -> Arc<Run> {
        let run = Arc::new(Run {
            prop,
            thorough,
            seed,
            only,
            rule,
            start: Instant::now(),
            budget,
            out,
            state: Default::default(),
            busy: Default::default(),
        });
        let w = run.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            let limit = Duration::from_secs(if w.thorough { 400 } else { 120 });
            let stuck = w
                .busy
                .lock()
                .unwrap()
                .values()
                .find(|(_, _, since)| since.elapsed() > limit)
                .cloned();
            if let Some((workload, index, since)) = stuck {
                w.violation(
                    &workload,
                    index,
                    format!("did not finish within {:?}", since.elapsed()),
                );
                w.finish();
                std::process::exit(1);
            }
        });
        run
    }

    pub fn violation(&self, workload: &str, index: u64, message: String) {
        let mut s = self.state.lock().unwrap();
        if s.violations.len() < 50 {
            s.violations.push(Violation {
                workload: workload.into(),
                index,
                message,
            });
        }
    }

    pub fn failed(&self) -> bool {
        !self.state.lock().unwrap().violations.is_empty()
    }

    /// Number of cases depending on tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Runs the cases of a workload on eight threads
    pub fn cases(&self, workload: &str, n: u64, f: impl Fn(&mut Case) -> Res + Sync) {
        self.cases_on(workload, n, 8, f)
    }

    /// Runs the cases of a workload on the given number of threads
    pub fn cases_on(
        &self,
        workload: &str,
        n: u64,
        threads: usize,
        f: impl Fn(&mut Case) -> Res + Sync,
    ) {
        let mut single = None;
        if let Some((w, i)) = &self.only {
            if w != workload {
                return;
            }
            single = *i;
        }
        if !self.thorough && self.failed() {
            // One violation decides, and what comes next may be disturbed by what is left of it
            return;
        }
        let (first, last) = single.map_or((0, n), |i| (i, i + 1));
        let next = AtomicU64::new(first);
        let failures = AtomicUsize::new(0);
        let began = Instant::now();
        let longest = AtomicU64::new(0);
        std::thread::scope(|s| {
            for t in 0..threads.min((last - first) as usize).max(1) {
                let (next, failures, f, longest) = (&next, &failures, &f, &longest);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || loop {
                        let index = next.fetch_add(1, Ordering::Relaxed);
                        if index >= last
                            || failures.load(Ordering::Relaxed) >= 3
                            || self.start.elapsed() > self.budget
                        {
                            return;
                        }
                        self.busy
                            .lock()
                            .unwrap()
                            .insert(t, (workload.to_string(), index, Instant::now()));
                        let seed = mix(self.seed, workload, index);
                        fastrand::seed(seed ^ 0xABCD);
                        let mut c = Case {
                            rng: Rng::new(seed),
                            index,
                            seed,
                            run: self,
                            workload,
                            evals: 0,
                            distinct: vec![],
                            counters: BTreeMap::new(),
                            sample: None,
                        };
                        let case_start = Instant::now();
                        let res = no_panic(|| f(&mut c)).unwrap_or_else(|p| Err(format!("panic: {p}")));
                        longest.fetch_max(case_start.elapsed().as_millis() as u64, Ordering::Relaxed);
                        self.busy.lock().unwrap().remove(&t);
                        let mut st = self.state.lock().unwrap();
                        st.evaluations += c.evals;
                        if st.distinct.len() < 20_000_000 {
                            st.distinct.extend(c.distinct.iter());
                        }
                        *st.counters.entry(format!("cases {}", c.workload)).or_default() += 1;
                        for (k, v) in &c.counters {
                            *st.counters.entry(k.clone()).or_default() += v;
                        }
                        if let Some(text) = c.sample.take() {
                            st.samples.entry(workload.into()).or_default().push(text);
                        }
                        if let Err(message) = res {
                            failures.fetch_add(1, Ordering::Relaxed);
                            drop(st);
                            self.violation(workload, index, message);
                        }
                    })
                    .unwrap();
            }
        });
        if std::env::var("MON_VERBOSE").is_ok() {
            eprintln!("{workload}: {:.2}s, longest case {} ms", began.elapsed().as_secs_f64(), longest.load(Ordering::Relaxed));
        }
    }

    /// Count something outside of a case
    pub fn add(&self, what: &str, n: u64) {
        *self.state.lock().unwrap().counters.entry(what.into()).or_default() += n;
    }

    /// Writes what was observed, and returns whether the property held
    pub fn finish(&self) -> bool {
        let s = self.state.lock().unwrap();
        let mut o = String::from("{");
        let _ = write!(o, "\"evaluations\": {}, ", s.evaluations);
        let _ = write!(o, "\"distinct_nontrivial\": {}, ", s.distinct.len());
        let _ = write!(o, "\"rule\": {}, ", json(self.rule));
        let _ = write!(o, "\"wall_s\": {:.3}, ", self.start.elapsed().as_secs_f64());
        let _ = write!(
            o,
            "\"cut_short\": {}, ",
            self.start.elapsed() > self.budget
        );
        o.push_str("\"counters\": {");
        for (i, (k, v)) in s.counters.iter().enumerate() {
            let _ = write!(o, "{}{}: {}", if i > 0 { ", " } else { "" }, json(k), v);
        }
        o.push_str("}, \"samples\": [");
        let mut first = true;
        for (w, texts) in &s.samples {
            for t in texts.iter().take(2) {
                let _ = write!(o, "{}{}", if first { "" } else { ", " }, json(&format!("{w}: {t}")));
                first = false;
            }
        }
        o.push_str("], \"known\": {");
        for (i, (k, v)) in s.known.iter().enumerate() {
            let _ = write!(o, "{}{}: {}", if i > 0 { ", " } else { "" }, json(k), json(v));
        }
        o.push_str("}, \"violations\": [");
        for (i, v) in s.violations.iter().enumerate() {
            let _ = write!(
                o,
                "{}{{\"workload\": {}, \"index\": {}, \"message\": {}}}",
                if i > 0 { ", " } else { "" },
                json(&v.workload),
                v.index,
                json(&v.message)
            );
        }
        o.push_str("]}\n");
        match &self.out {
            Some(path) => std::fs::write(path, o).expect("can write the result"),
            None => print!("{o}"),
        }
        s.violations.is_empty()
    }
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
