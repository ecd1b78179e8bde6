//! A global allocator that can place every allocation against an inaccessible page, so that a read
//! or write outside a heap buffer of the code under test becomes a fault instead of silent luck.
//!
//! Mode 1 puts the end of the block against the guard page (overruns), mode 2 its start
//! (underruns).  A freed block becomes inaccessible (use after free).  Off by default.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
    fn madvise(a: *mut u8, len: usize, advice: i32) -> i32;
}

const PAGE: usize = 4096;
const ARENA: usize = 1 << 38;
static MODE: AtomicUsize = AtomicUsize::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static SERVED: AtomicUsize = AtomicUsize::new(0);

pub struct Guard;

/// Switches the guarded mode on (1 = overruns, 2 = underruns). False when unavailable.
pub fn enable(mode: usize) -> bool {
    if BASE.load(Ordering::SeqCst) == 0 {
        // PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
        let p = unsafe { mmap(std::ptr::null_mut(), ARENA, 0, 0x2 | 0x20 | 0x4000, -1, 0) };
        if p as isize == -1 {
            return false;
        }
        BASE.store(p as usize, Ordering::SeqCst);
    }
    if LIVE.load(Ordering::SeqCst) == 0 {
        NEXT.store(0, Ordering::SeqCst);
    }
    MODE.store(mode, Ordering::SeqCst);
    true
}
pub fn disable() {
    MODE.store(0, Ordering::SeqCst);
}
/// how many blocks were served guarded so far
pub fn served() -> usize {
    SERVED.load(Ordering::SeqCst)
}

unsafe fn guarded(layout: Layout, mode: usize) -> *mut u8 {
    let body = (layout.size() + PAGE - 1) / PAGE * PAGE;
    let total = body + 2 * PAGE;
    let off = NEXT.fetch_add(total, Ordering::SeqCst);
    if off + total > ARENA || layout.align() > PAGE {
        return std::ptr::null_mut();
    }
    let start = BASE.load(Ordering::SeqCst) + off + PAGE;
    if mprotect(start as *mut u8, body, 3) != 0 {
        return std::ptr::null_mut();
    }
    LIVE.fetch_add(1, Ordering::SeqCst);
    SERVED.fetch_add(1, Ordering::SeqCst);
    let p = if mode == 1 { start + ((body - layout.size()) & !(layout.align() - 1)) } else { start };
    p as *mut u8
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let mode = MODE.load(Ordering::Relaxed);
        if mode != 0 && layout.size() > 0 {
            let p = guarded(layout, mode);
            if !p.is_null() {
                // fresh memory is zero; make reads of uninitialised memory visible
                std::ptr::write_bytes(p, 0xC7, layout.size());
                return p;
            }
        }
        System.alloc(layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let mode = MODE.load(Ordering::Relaxed);
        if mode != 0 && layout.size() > 0 {
            let p = guarded(layout, mode);
            if !p.is_null() {
                return p;
            }
        }
        System.alloc_zeroed(layout)
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let base = BASE.load(Ordering::Relaxed);
        let a = p as usize;
        if base != 0 && a >= base && a < base + ARENA {
            let start = a / PAGE * PAGE;
            let body = (layout.size() + PAGE - 1) / PAGE * PAGE;
            madvise(start as *mut u8, body, 4);
            mprotect(start as *mut u8, body, 0);
            LIVE.fetch_sub(1, Ordering::SeqCst);
            return;
        }
        System.dealloc(p, layout)
    }
}
