//! What the code under test holds in memory: every block that was allocated while it executed.

use crate::kernel::ACTIVE;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

thread_local! {
    /// counts although no call is being simulated: resolvers are being made
    pub static SETUP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
static LIVE: AtomicI64 = AtomicI64::new(0);

pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
pub fn reset() {
    LIVE.store(0, Relaxed);
}

/// every block is preceded by its size, if it counts
pub struct Counting;

fn head(l: &Layout) -> usize {
    l.align().max(16)
}
fn whole(l: &Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + head(l), head(l)) }
}
unsafe fn mark(p: *mut u8, l: &Layout) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let q = p.add(head(l));
    let n = if ACTIVE.try_with(|a| a.get()).unwrap_or(0) != 0 || SETUP.try_with(|a| a.get()).unwrap_or(false) { l.size() as u64 + 1 } else { 0 };
    if n != 0 {
        LIVE.fetch_add(n as i64 - 1, Relaxed);
    }
    (q.sub(8) as *mut u64).write(n);
    q
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        mark(System.alloc(whole(&l)), &l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        mark(System.alloc_zeroed(whole(&l)), &l)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let n = (q.sub(8) as *mut u64).read();
        if n != 0 {
            LIVE.fetch_sub(n as i64 - 1, Relaxed);
        }
        System.dealloc(q.sub(head(&l)), whole(&l));
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let h = head(&l);
        let old = (q.sub(8) as *mut u64).read();
        let p = System.realloc(q.sub(h), whole(&l), size + h);
        if p.is_null() {
            return p;
        }
        let r = p.add(h);
        if old != 0 {
            LIVE.fetch_add(size as i64 - (old as i64 - 1), Relaxed);
            (r.sub(8) as *mut u64).write(size as u64 + 1);
        }
        r
    }
}
