//! Allocator seam: counts live bytes per thread and caps the process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicIsize, Ordering};

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}
static TOTAL: AtomicIsize = AtomicIsize::new(0);
pub const CAP: isize = 1 << 31;

fn add(n: isize) {
    let _ = LIVE.try_with(|c| c.set(c.get() + n));
    if n > 0 { let _ = COUNT.try_with(|c| c.set(c.get() + 1)); }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if TOTAL.fetch_add(l.size() as isize, Ordering::Relaxed) + l.size() as isize > CAP {
            TOTAL.fetch_sub(l.size() as isize, Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() { add(l.size() as isize) }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        TOTAL.fetch_sub(l.size() as isize, Ordering::Relaxed);
        System.dealloc(p, l);
        add(-(l.size() as isize));
    }
}

/// Bytes allocated minus bytes freed by this thread so far.
pub fn live() -> isize { LIVE.with(|c| c.get()) }
/// Number of allocations made by this thread so far.
pub fn count() -> u64 { COUNT.with(|c| c.get()) }
