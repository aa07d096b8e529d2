//! Counts live heap bytes, so memory out of proportion to an input is noticed.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    sync::atomic::{AtomicI64, Ordering::Relaxed},
};

pub struct Counting;

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static BASE: AtomicI64 = AtomicI64::new(0);

fn add(n: i64) {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(live, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        // Refuse what would hurt the machine; the request itself is what counts.
        add(layout.size() as i64);
        if layout.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        LIVE.fetch_sub(layout.size() as i64, Relaxed);
        System.dealloc(ptr, layout)
    }
}

pub fn reset() {
    let live = LIVE.load(Relaxed);
    BASE.store(live, Relaxed);
    PEAK.store(live, Relaxed);
}

/// Bytes allocated at the worst moment since the last reset.
pub fn peak() -> i64 {
    (PEAK.load(Relaxed) - BASE.load(Relaxed)).min(1 << 30)
}
