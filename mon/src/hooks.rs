//! The observation points inside of the renderer
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock, RwLock};
use std::time::{Duration, Instant};

pub type Callback = Arc<dyn Fn(&'static str, u32, usize) + Send + Sync>;

static CALLBACK: OnceLock<RwLock<Option<Callback>>> = OnceLock::new();

fn called(point: &'static str, sample: u32, row: usize) {
    let cb = CALLBACK.get().and_then(|c| c.read().unwrap().clone());
    if let Some(cb) = cb {
        cb(point, sample, row);
    }
}

/// Sets what is called at the points, for all renders of the process
pub fn observe(cb: Option<Callback>) {
    let slot = CALLBACK.get_or_init(|| {
        solstrale::verif::install(called);
        RwLock::new(None)
    });
    *slot.write().unwrap() = cb;
}

/// Takes away the callback when done
pub struct Observing;

impl Observing {
    pub fn new(cb: Callback) -> Observing {
        observe(Some(cb));
        Observing
    }
}

impl Drop for Observing {
    fn drop(&mut self) {
        observe(None);
    }
}

#[derive(Clone, Debug)]
pub struct Event {
    pub point: &'static str,
    pub sample: u32,
    pub row: usize,
    pub at: Instant,
}

#[derive(Default)]
pub struct Log(Mutex<Vec<Event>>);

impl Log {
    pub fn push(&self, point: &'static str, sample: u32, row: usize) {
        self.0.lock().unwrap().push(Event {
            point,
            sample,
            row,
            at: Instant::now(),
        });
    }
    pub fn take(&self) -> Vec<Event> {
        std::mem::take(&mut self.0.lock().unwrap())
    }
}

/// Delays that differ with each call, to shake up the order of the workers
#[derive(Clone, Copy, Debug)]
pub enum Shake {
    None,
    Yield,
    Spin(u32),
    Sleep(u64),
    /// One row is much slower than all others
    Straggler(usize, u64),
}

static TICK: AtomicU64 = AtomicU64::new(1);

pub fn shake(how: Shake, row: usize) {
    let x = TICK.fetch_add(0x9E3779B97F4A7C15, Ordering::Relaxed);
    let z = (x ^ (x >> 29)).wrapping_mul(0xBF58476D1CE4E5B9) >> 32;
    match how {
        Shake::None => {}
        Shake::Yield => {
            for _ in 0..z % 4 {
                std::thread::yield_now();
            }
        }
        Shake::Spin(n) => {
            for _ in 0..z % n as u64 {
                std::hint::spin_loop();
            }
        }
        Shake::Sleep(us) => {
            if z % 3 == 0 {
                std::thread::sleep(Duration::from_micros(z % us));
            }
        }
        Shake::Straggler(r, us) => {
            if r == row {
                std::thread::sleep(Duration::from_micros(us));
            }
        }
    }
}

/// Number of workers of the renders to come
pub fn workers(n: Option<u64>) {
    match n {
        Some(n) => std::env::set_var("RAYON_NUM_THREADS", n.to_string()),
        None => std::env::remove_var("RAYON_NUM_THREADS"),
    }
}
