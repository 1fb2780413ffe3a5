//! per-thread allocation counters
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
fn add(n: i64) {
    let _ = LIVE.try_with(|x| {
        let v = x.get() + n;
        x.set(v);
        PEAK.with(|p| if v > p.get() { p.set(v) });
        COUNT.with(|c| c.set(c.get() + 1));
    });
}
/// (peak live bytes above the start, number of allocations) of f
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let base = LIVE.with(|x| x.get());
    PEAK.with(|p| p.set(base));
    let c0 = COUNT.with(|c| c.get());
    let r = f();
    let peak = PEAK.with(|p| p.get()) - base;
    (r, peak.max(0) as u64, COUNT.with(|c| c.get()) - c0)
}
