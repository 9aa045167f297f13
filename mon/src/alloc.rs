//! Counts the memory in use, while it is asked to
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};

pub struct Counting;

static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

fn add(bytes: i64, blocks: i64) {
    if ON.load(Ordering::Relaxed) {
        let now = LIVE.fetch_add(bytes, Ordering::Relaxed) + bytes;
        BLOCKS.fetch_add(blocks, Ordering::Relaxed);
        if bytes > 0 {
            PEAK.fetch_max(now, Ordering::Relaxed);
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        add(size as i64 - l.size() as i64, 0);
        System.realloc(p, l, size)
    }
}

pub fn start() {
    ON.store(true, Ordering::Relaxed);
}

pub fn stop() {
    ON.store(false, Ordering::Relaxed);
}

/// Bytes and blocks that were allocated and not freed since the start
pub fn live() -> (i64, i64) {
    (LIVE.load(Ordering::Relaxed), BLOCKS.load(Ordering::Relaxed))
}

/// The most bytes at a time since the last call
pub fn peak() -> i64 {
    PEAK.swap(LIVE.load(Ordering::Relaxed), Ordering::Relaxed)
}
