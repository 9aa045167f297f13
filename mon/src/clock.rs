//! A clock that tells the time it is set to, on the threads that ask for that
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn dlsym(handle: *mut u8, name: *const u8) -> *mut u8;
}

static REAL: AtomicUsize = AtomicUsize::new(0);

fn real(clock: i32, out: &mut Timespec) -> i32 {
    let mut f = REAL.load(Ordering::Relaxed);
    if f == 0 {
        // RTLD_NEXT: the one this one stands in front of
        f = unsafe { dlsym(usize::MAX as *mut u8, c"clock_gettime".as_ptr().cast()) } as usize;
        assert!(f != 0);
        REAL.store(f, Ordering::Relaxed);
    }
    let f: extern "C" fn(i32, *mut Timespec) -> i32 = unsafe { std::mem::transmute(f) };
    f(clock, out)
}

thread_local! {
    /// Wall clock and steady clock in nanoseconds, and how often they have been read
    static FAKE: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
    static READ: Cell<u64> = const { Cell::new(0) };
}

/// Stands in front of the function of the C library, that the standard library calls. Not in the
/// builds for sanitizers and interpreters (all with the feature), which have their own
#[cfg_attr(not(feature = "oidn"), no_mangle)]
pub extern "C" fn clock_gettime(clock: i32, out: *mut Timespec) -> i32 {
    let out = unsafe { &mut *out };
    if let Ok(Some((wall, steady))) = FAKE.try_with(Cell::get) {
        let t = match clock {
            0 => wall,
            1 => steady,
            _ => return real(clock, out),
        };
        READ.with(|r| r.set(r.get() + 1));
        *out = Timespec { sec: t.div_euclid(1_000_000_000), nsec: t.rem_euclid(1_000_000_000) };
        return 0;
    }
    real(clock, out)
}

/// Sets the clocks of this thread. The steady one never goes back
pub fn set(wall: i64) {
    let steady = FAKE.with(|f| f.get().map_or(0, |f| f.1)).max(wall);
    FAKE.with(|f| f.set(Some((wall, steady))));
}

/// How often the clocks of this thread have been read since they were set
pub fn reset() -> u64 {
    FAKE.with(|f| f.set(None));
    READ.with(|r| r.replace(0))
}

fn cpu(clock: i32) -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    real(clock, &mut t);
    t.sec as f64 + t.nsec as f64 * 1e-9
}

/// Processor time of this thread, in seconds
pub fn thread_time() -> f64 {
    cpu(3)
}

/// Processor time of all threads
pub fn process_time() -> f64 {
    cpu(2)
}
