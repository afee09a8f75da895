//! Counts what each thread allocates.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static NOW: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

pub struct Meter;

fn count(n: isize) {
    let _ = NOW.try_with(|now| {
        let v = now.get() + n;
        now.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
    });
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as isize - l.size() as isize);
        unsafe { System.realloc(p, l, n) }
    }
}

pub fn reset() {
    NOW.with(|n| n.set(0));
    PEAK.with(|p| p.set(0));
}

pub fn peak() -> usize {
    PEAK.with(|p| p.get().max(0) as usize)
}
