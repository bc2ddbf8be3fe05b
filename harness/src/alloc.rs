//! Counting allocator: per-thread number of allocations, process-wide live bytes.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

pub struct Counting;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE_T: Cell<i64> = const { Cell::new(0) };
    static VOLUME: Cell<u64> = const { Cell::new(0) };
}
static LIVE: AtomicI64 = AtomicI64::new(0);

fn taken(bytes: usize) {
    let _ = VOLUME.try_with(|c| c.set(c.get() + bytes as u64));
}

fn add(bytes: i64, allocs: u64) {
    let _ = ALLOCS.try_with(|c| c.set(c.get() + allocs));
    let _ = LIVE_T.try_with(|c| c.set(c.get() + bytes));
    LIVE.fetch_add(bytes, Ordering::Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64, 1);
            taken(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64, 1);
            taken(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64), 0);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64, 1);
            taken(n);
        }
        q
    }
}

/// allocations made by this thread so far
pub fn allocs() -> u64 {
    ALLOCS.with(|c| c.get())
}
/// bytes allocated minus bytes freed by this thread
pub fn live_thread() -> i64 {
    LIVE_T.with(|c| c.get())
}
/// bytes allocated minus bytes freed by the process
pub fn live() -> i64 {
    LIVE.load(Ordering::Relaxed)
}
/// bytes asked for by this thread so far, freed or not
pub fn volume() -> u64 {
    VOLUME.with(|c| c.get())
}
