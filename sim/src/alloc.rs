//! Counting allocator: the memory a call takes is an observation, the same on
//! every replay.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

/// A single request above this is refused, so that a runaway length field ends
/// the worker (which the driver reports) instead of exhausting the sandbox.
const REFUSE: usize = 4 << 30;

fn up(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = BIGGEST.try_with(|b| {
            if n as u64 > b.get() {
                b.set(n as u64)
            }
        });
    });
}

fn down(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        up(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        up(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        down(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > REFUSE {
            return std::ptr::null_mut();
        }
        down(l.size());
        up(new);
        System.realloc(p, l, new)
    }
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// Starts a measurement; returns the live bytes at this point.
pub fn start() -> i64 {
    let l = live();
    PEAK.with(|p| p.set(l));
    BIGGEST.with(|b| b.set(0));
    l
}

pub fn peak_since(start: i64) -> i64 {
    PEAK.with(|p| p.get()) - start
}

pub fn biggest() -> u64 {
    BIGGEST.with(|b| b.get())
}
