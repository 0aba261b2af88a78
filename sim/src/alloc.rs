//! Counting allocator. Memory requested by the library (while a library call runs in a simulated thread) is counted
//! separately from the harness's own, and bounded.

use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Counting;

pub static LIVE_LIB: AtomicI64 = AtomicI64::new(0);
pub static PEAK_LIB: AtomicI64 = AtomicI64::new(0);
pub static CAP_LIB: AtomicI64 = AtomicI64::new(i64::MAX);

#[repr(C)]
struct Head {
    size: u64,
    lib: u64,
}

fn pad(l: &Layout) -> usize {
    l.align().max(16)
}

fn charge(n: i64) {
    let v = LIVE_LIB.fetch_add(n, Relaxed) + n;
    if v > PEAK_LIB.load(Relaxed) {
        PEAK_LIB.store(v, Relaxed);
    }
    if v > CAP_LIB.load(Relaxed) {
        sys::memory_limit(n as u64, v as u64);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = pad(&l);
        let lib = sys::active();
        if lib {
            charge(l.size() as i64);
        }
        let Some(total) = l.size().checked_add(p) else { return std::ptr::null_mut() };
        let Ok(nl) = Layout::from_size_align(total, p) else { return std::ptr::null_mut() };
        let r = System.alloc(nl);
        if r.is_null() {
            return r;
        }
        let u = r.add(p);
        *(u.sub(16) as *mut Head) = Head { size: l.size() as u64, lib: lib as u64 };
        u
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = pad(&l);
        let lib = sys::active();
        if lib {
            charge(l.size() as i64);
        }
        let Some(total) = l.size().checked_add(p) else { return std::ptr::null_mut() };
        let Ok(nl) = Layout::from_size_align(total, p) else { return std::ptr::null_mut() };
        let r = System.alloc_zeroed(nl);
        if r.is_null() {
            return r;
        }
        let u = r.add(p);
        *(u.sub(16) as *mut Head) = Head { size: l.size() as u64, lib: lib as u64 };
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let p = pad(&l);
        let h = &*(u.sub(16) as *const Head);
        if h.lib != 0 {
            LIVE_LIB.fetch_sub(h.size as i64, Relaxed);
        }
        System.dealloc(u.sub(p), Layout::from_size_align_unchecked(l.size() + p, p));
    }
    unsafe fn realloc(&self, u: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let p = pad(&l);
        let h = u.sub(16) as *mut Head;
        let lib = (*h).lib != 0;
        let old = (*h).size as i64;
        if lib {
            charge(new as i64 - old);
        }
        let Some(total) = new.checked_add(p) else { return std::ptr::null_mut() };
        let r = System.realloc(u.sub(p), Layout::from_size_align_unchecked(l.size() + p, p), total);
        if r.is_null() {
            if lib {
                LIVE_LIB.fetch_sub(new as i64 - old, Relaxed);
            }
            return r;
        }
        let u = r.add(p);
        (*(u.sub(16) as *mut Head)).size = new as u64;
        u
    }
}
