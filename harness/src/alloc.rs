//! Counting allocator: live and peak bytes, and an optional refusal limit
//! (a refused allocation aborts the worker, which its parent observes).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
/// No case comes near this; code that allocates without end is stopped here
/// rather than by the machine running out of memory.
const CAP: usize = 3 << 30;
static LIMIT: AtomicUsize = AtomicUsize::new(CAP);

fn add(n: usize) -> bool {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if l > LIMIT.load(Relaxed) {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !add(n - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

pub fn live() -> usize {
    LIVE.load(Relaxed)
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
/// `None` removes the limit; `Some(n)` allows n bytes more than now.
pub fn limit(extra: Option<usize>) {
    LIMIT.store(
        extra
            .map(|e| (LIVE.load(Relaxed) + e).min(CAP))
            .unwrap_or(CAP),
        Relaxed,
    );
}
