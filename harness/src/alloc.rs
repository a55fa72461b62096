//! Counts the memory held by this thread, to notice reservations out of proportion and leaks, and
//! ends the process when a block is released twice or with another size.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    sync::atomic::{AtomicIsize, Ordering::Relaxed},
};

pub struct Counting;

thread_local! {
    static NOW: Cell<usize> = const { Cell::new(0) };
    static PEAK: Cell<usize> = const { Cell::new(0) };
}

static ALL: AtomicIsize = AtomicIsize::new(0);

/// Bytes held by all threads
pub fn everything() -> isize {
    ALL.load(Relaxed)
}

fn add(n: usize) {
    ALL.fetch_add(n as isize, Relaxed);
    let _ = NOW.try_with(|c| {
        let v = c.get().wrapping_add(n);
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if (v as isize) > (p.get() as isize) {
                p.set(v)
            }
        });
    });
}

fn sub(n: usize) {
    ALL.fetch_sub(n as isize, Relaxed);
    let _ = NOW.try_with(|c| c.set(c.get().wrapping_sub(n)));
}

const LIVE: u64 = 0x5afe_b10c_5afe_b10c;
const DEAD: u64 = 0xdead_b10c_dead_b10c;

/// Bytes in front of a block, at least 32: the allocator below overwrites the first 16 of a
/// released block
fn front(l: Layout) -> usize {
    l.align().max(32)
}

fn outer(l: Layout, size: usize) -> Option<Layout> {
    Layout::from_size_align(size.checked_add(front(l))?, l.align().max(16)).ok()
}

unsafe fn mark(base: *mut u8, l: Layout, size: usize) -> *mut u8 {
    if base.is_null() {
        return base;
    }
    let p = base.add(front(l));
    (p.sub(16) as *mut u64).write(LIVE ^ size as u64);
    p
}

unsafe fn check(p: *mut u8, l: Layout) -> *mut u8 {
    let m = (p.sub(16) as *mut u64).read();
    if m != LIVE ^ l.size() as u64 {
        let what: &[u8] = if m == DEAD { b"memory released twice\n" } else { b"memory released with another size or overwritten\n" };
        libc::write(2, what.as_ptr() as _, what.len());
        libc::abort();
    }
    p.sub(front(l))
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(o) = outer(l, l.size()) else { return std::ptr::null_mut() };
        add(l.size());
        mark(System.alloc(o), l, l.size())
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let Some(o) = outer(l, l.size()) else { return std::ptr::null_mut() };
        add(l.size());
        mark(System.alloc_zeroed(o), l, l.size())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let base = check(p, l);
        sub(l.size());
        (p.sub(16) as *mut u64).write(DEAD);
        // make uses of released memory visible
        std::ptr::write_bytes(p, 0xd5, l.size().min(256));
        System.dealloc(base, outer(l, l.size()).unwrap())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let base = check(p, l);
        let Some(_) = outer(l, n) else { return std::ptr::null_mut() };
        let q = System.realloc(base, outer(l, l.size()).unwrap(), n + front(l));
        if !q.is_null() {
            add(n);
            sub(l.size());
        }
        mark(q, l, n)
    }
}

/// Bytes held by this thread: a difference of two calls is meaningful
pub fn held() -> usize {
    NOW.with(|c| c.get())
}

/// Returns the amount held now
pub fn reset_peak() -> usize {
    let n = NOW.with(|c| c.get());
    PEAK.with(|p| p.set(n));
    n
}

pub fn peak() -> usize {
    PEAK.with(|p| p.get())
}
