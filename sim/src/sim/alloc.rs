//! Counting allocator: memory bound per call, allocations and releases as preemption points.
use super::{raw, DEPTH, TASK};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

#[link_section = "simdata"]
pub static LIVE: AtomicI64 = AtomicI64::new(0);
#[link_section = "simdata"]
pub static PEAK: AtomicI64 = AtomicI64::new(0);
#[link_section = "simdata"]
pub static COUNT: AtomicU64 = AtomicU64::new(0);
pub const HARD_LIMIT: i64 = 600 << 20;

pub struct SimAlloc;

fn library_code() -> bool {
    TASK.try_with(|t| t.get() >= 0).unwrap_or(false) && DEPTH.try_with(|d| d.get() == 0).unwrap_or(false)
}
fn grew(n: i64) {
    COUNT.fetch_add(1, Relaxed);
    let live = LIVE.fetch_add(n, Relaxed) + n;
    if live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed);
    }
    if live > HARD_LIMIT && super::active() {
        DEPTH.with(|d| d.set(d.get() + 1));
        (super::w().fatal)("memory_exhausted", "the operation allocated more than 600 MiB");
    }
}
/// Instructions of the allocator itself are not counted.
fn quiet<R>(f: impl FnOnce() -> R) -> R {
    if DEPTH.try_with(|d| d.set(d.get() + 1)).is_err() {
        return f();
    }
    let r = f();
    let _ = DEPTH.try_with(|d| {
        d.set(d.get() - 1);
        if d.get() == 0 {
            super::sched::resume_steps();
        }
    });
    r
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if library_code() {
            grew(l.size() as i64);
            super::sched::alloc_point();
        }
        quiet(|| System.alloc(l))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if library_code() {
            grew(l.size() as i64);
            super::sched::alloc_point();
        }
        quiet(|| System.alloc_zeroed(l))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if library_code() {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            super::sched::alloc_point();
        }
        quiet(|| System.dealloc(p, l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if library_code() {
            grew(n as i64 - l.size() as i64);
            super::sched::alloc_point();
        }
        quiet(|| System.realloc(p, l, n))
    }
}
/// Start measuring: forget the peak so far.
pub fn mark() -> i64 {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}
pub fn peak_since(mark: i64) -> i64 {
    PEAK.load(Relaxed) - mark
}
#[allow(dead_code)]
fn _unused() {
    raw::raw_print("");
}
