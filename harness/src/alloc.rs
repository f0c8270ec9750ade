//! Counting allocator: tracks, per thread, live bytes, their peak and the largest
//! single request since `reset()`. A thread whose live bytes would pass CAP gets a
//! null pointer, so runaway allocation ends in a clean abort that the supervising
//! process triages, and not in the machine running out of memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
pub const CAP: isize = 3 << 30;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static MAXREQ: Cell<usize> = const { Cell::new(0) };
    static LIMIT: Cell<isize> = const { Cell::new(CAP) };
}

#[inline]
fn add(n: usize) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        if v > CAP && v > LIMIT.try_with(|c| c.get()).unwrap_or(CAP) {
            return false;
        }
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = MAXREQ.try_with(|m| {
            if n > m.get() {
                m.set(n)
            }
        });
        true
    })
    .unwrap_or(true)
}
#[inline]
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && !add(n - l.size()) {
            return std::ptr::null_mut();
        }
        if n <= l.size() {
            sub(l.size() - n);
        }
        System.realloc(p, l, n)
    }
}

/// A higher limit on this thread, for as long as this exists.
pub struct Roomy(isize);
impl Roomy {
    pub fn new(limit: isize) -> Self {
        Roomy(LIMIT.with(|c| c.replace(limit)))
    }
}
impl Drop for Roomy {
    fn drop(&mut self) {
        LIMIT.with(|c| c.set(self.0));
    }
}
/// Start measuring on this thread.
pub fn reset() {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    MAXREQ.with(|m| m.set(0));
}
/// (peak live bytes above `base`, largest single request) since `reset()`.
pub fn measure(base: isize) -> (usize, usize) {
    (
        (PEAK.with(|p| p.get()) - base).max(0) as usize,
        MAXREQ.with(|m| m.get()),
    )
}
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
