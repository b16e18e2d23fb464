//! Counting global allocator: live bytes and peak per thread while armed; a hard cap turns
//! unbounded allocation into an abort of the worker (reported with its input).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size() as i64) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size() as i64) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !note(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        unsafe { System.realloc(p, l, n) }
    }
}

fn note(d: i64) -> bool {
    ARMED
        .try_with(|a| {
            if !a.get() {
                return true;
            }
            let l = LIVE.with(|l| {
                l.set(l.get() + d);
                l.get()
            });
            PEAK.with(|p| p.set(p.get().max(l)));
            d <= 0 || l <= CAP.with(|c| c.get())
        })
        .unwrap_or(true)
}

/// Runs `f` and returns the peak of additional live memory of this thread.
pub fn measure<T>(cap: i64, f: impl FnOnce() -> T) -> (T, i64) {
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    CAP.with(|l| l.set(cap));
    ARMED.with(|a| a.set(true));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(false));
        }
    }
    let off = Off;
    let r = f();
    drop(off);
    (r, PEAK.with(|p| p.get()))
}

/// live memory of this thread since `measure` began
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
