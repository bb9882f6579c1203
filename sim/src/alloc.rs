//! Measuring, failing allocator of the simulated process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Meter;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
/// absolute ceiling of live bytes (0 = none)
static CAP: AtomicUsize = AtomicUsize::new(0);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);

fn add(n: usize) -> bool {
    let cap = CAP.load(Relaxed);
    let cur = CUR.load(Relaxed);
    if cap != 0 && cur.saturating_add(n) > cap {
        return false;
    }
    if n > BIGGEST.load(Relaxed) {
        BIGGEST.store(n, Relaxed);
    }
    CUR.store(cur + n, Relaxed);
    if cur + n > PEAK.load(Relaxed) {
        PEAK.store(cur + n, Relaxed);
    }
    true
}
// The simulated process is single threaded; the supervisor does not rely on the counts.
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.store(CUR.load(Relaxed).wrapping_sub(l.size()), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && !add(n - l.size()) {
            return std::ptr::null_mut();
        }
        if n < l.size() {
            CUR.store(CUR.load(Relaxed).wrapping_sub(l.size() - n), Relaxed);
        }
        System.realloc(p, l, n)
    }
}
pub fn set_cap(bytes_over_current: usize) {
    CAP.store(if bytes_over_current == 0 { 0 } else { CUR.load(Relaxed) + bytes_over_current }, Relaxed);
}
/// Peak live bytes during f over those live before it.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = CUR.load(Relaxed);
    PEAK.store(base, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(base))
}
