//! Counting allocator: live, peak and total bytes per thread, and a hard cap standing in for a
//! machine with limited memory (a request beyond it fails, as malloc would).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
}

#[inline]
fn add(n: i64) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n;
        if n > 0 && v > CAP.with(|c| c.get()) {
            return false;
        }
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        true
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        if !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        if !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        // a realloc may need both blocks at once: count the new one first
        if !add(n as i64) {
            return std::ptr::null_mut();
        }
        add(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}

/// starts a measurement on this thread; `cap` bounds the bytes live at any moment from here on
pub fn start(cap: i64) -> i64 {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    CAP.with(|c| c.set(if cap == i64::MAX { cap } else { live + cap }));
    live
}
pub fn no_cap() {
    CAP.with(|c| c.set(i64::MAX));
}
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn peak() -> i64 {
    PEAK.with(|l| l.get())
}
pub fn count() -> u64 {
    COUNT.with(|l| l.get())
}
