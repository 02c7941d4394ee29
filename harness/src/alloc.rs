//! Counting (and optionally failing) global allocator.  The counters belong to the thread, so that
//! what another thread (such as the runner's watchdog) does never disturbs a measurement.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    /// When nonzero: counts down at each allocation, which fails when it reaches 1.
    static FAIL_AT: Cell<i64> = const { Cell::new(0) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
}

/// Fill fresh and freed memory with a pattern, so that a result which depends on it is seen to be wrong.
static POISON: AtomicBool = AtomicBool::new(false);
pub fn poison(on: bool) {
    POISON.store(on, Ordering::Relaxed);
}
unsafe fn fill(p: *mut u8, n: usize) {
    const WHOLE: usize = 32 << 20;
    const EDGE: usize = 1 << 20;
    if !POISON.load(Ordering::Relaxed) {
    } else if n <= WHOLE {
        p.write_bytes(0xd7, n);
    } else {
        p.write_bytes(0xd7, EDGE);
        p.add(n - EDGE).write_bytes(0xd7, EDGE);
    }
}

fn should_fail() -> bool {
    let v = FAIL_AT.get();
    if v == 0 {
        return false;
    }
    FAIL_AT.set(v - 1);
    if v == 1 {
        FAILED.set(FAILED.get() + 1);
        return true;
    }
    false
}
fn add(n: usize, m: usize, new: i64) {
    let l = LIVE.get() + n as i64 - m as i64;
    LIVE.set(l);
    PEAK.set(PEAK.get().max(l));
    BLOCKS.set(BLOCKS.get() + new);
    ALLOCS.set(ALLOCS.get() + 1);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if should_fail() {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            fill(p, l.size());
            add(l.size(), 0, 1);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if should_fail() {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size(), 0, 1);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        fill(p, l.size().min(4096));
        System.dealloc(p, l);
        LIVE.set(LIVE.get() - l.size() as i64);
        BLOCKS.set(BLOCKS.get() - 1);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if should_fail() {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            if n > l.size() {
                fill(q.add(l.size()), n - l.size());
            }
            add(n, l.size(), 0);
        }
        q
    }
}
pub fn live() -> i64 {
    LIVE.get()
}
pub fn blocks() -> i64 {
    BLOCKS.get()
}
/// Allocations and reallocations granted so far.
pub fn allocs() -> u64 {
    ALLOCS.get()
}
/// Refuse the n-th request from now on; 0 refuses none.
pub fn fail_at(n: i64) {
    FAIL_AT.set(n);
}
pub fn failed() -> u64 {
    FAILED.get()
}
/// Reset the peak to the current level; returns that level.
pub fn reset_peak() -> i64 {
    let l = live();
    PEAK.set(l);
    l
}
pub fn peak() -> i64 {
    PEAK.get()
}
