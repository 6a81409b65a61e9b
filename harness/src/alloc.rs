//! Counting allocator: live and peak bytes and number of allocations of the current thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
}

fn add(n: i64) -> bool {
    let mut ok = true;
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        if n > 0 {
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
            let _ = TOTAL.try_with(|c| c.set(c.get() + n as u64));
            let _ = CAP.try_with(|c| {
                if v > c.get() {
                    ok = false
                }
            });
        }
    });
    ok
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as i64) {
            add(-(l.size() as i64));
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let d = new as i64 - l.size() as i64;
        if !add(d) {
            add(-d);
            return std::ptr::null_mut();
        }
        System.realloc(p, l, new)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Usage {
    pub peak: i64,
    pub count: u64,
    pub total: u64,
}

/// Run `f`, report what it allocated on this thread beyond what was live before.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, Usage) {
    let live0 = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live0));
    let c0 = COUNT.with(|c| c.get());
    let t0 = TOTAL.with(|c| c.get());
    let r = f();
    let u = Usage {
        peak: PEAK.with(|p| p.get()) - live0,
        count: COUNT.with(|c| c.get()) - c0,
        total: TOTAL.with(|c| c.get()) - t0,
    };
    (r, u)
}

/// Limit the live bytes of the current thread (allocation failure aborts the process).
pub fn cap(bytes: i64) {
    CAP.with(|c| c.set(bytes));
}
