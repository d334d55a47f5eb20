//! An allocator that makes use after free, double free and late writes visible.
//!
//! Freed blocks are filled with a poison byte and kept in a quarantine for a while; a block that is found
//! altered when it leaves the quarantine, or that is freed again while in it, aborts the worker, which the
//! driver reports as a violation of the case being run (after reproducing it).

use std::alloc::{ GlobalAlloc, Layout, System };
use std::sync::atomic::{ AtomicBool, Ordering::* };

const SLOTS:     usize = 2048;
const MAX_BLOCK: usize = 2048;
const POISON:    u8    = 0xDD;
pub struct Guarded;

struct State {
    ring:  [(usize, usize, usize); SLOTS],   // address, size, alignment
    head:  usize,
}

static LOCK:      AtomicBool = AtomicBool::new(false);
static ENABLED:   AtomicBool = AtomicBool::new(false);
static mut STATE: State      = State { ring: [(0, 0, 0); SLOTS], head: 0 };

pub fn enable() { ENABLED.store(true, SeqCst); }

fn die(msg: &str) -> ! {
    unsafe {
        libc::write(2, msg.as_ptr() as *const libc::c_void, msg.len());
        libc::abort()
    }
}

unsafe fn intact(addr: usize, size: usize) -> bool {
    unsafe {
        let words: usize = size / 8;
        let mut bad: u64 = 0;
        for i in 0..words { bad |= (addr as *const u64).add(i).read_unaligned() ^ (u64::from_ne_bytes([POISON; 8])); }
        for i in words * 8..size { bad |= (*(addr as *const u8).add(i) ^ POISON) as u64; }
        bad == 0
    }
}

fn lock()   { while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() { std::hint::spin_loop(); } }
fn unlock() { LOCK.store(false, Release); }

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 { unsafe { System.alloc(layout) } }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 { unsafe { System.alloc_zeroed(layout) } }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if !ENABLED.load(Relaxed) || layout.size() > MAX_BLOCK || layout.size() == 0 {
            return unsafe { System.dealloc(ptr, layout) };
        }
        lock();
        unsafe {
            let st: &mut State = &mut *std::ptr::addr_of_mut!(STATE);
            if intact(ptr as usize, layout.size().min(8)) && st.ring.iter().any(|b| b.0 == ptr as usize) { die("GUARD: double free\n"); }
            std::ptr::write_bytes(ptr, POISON, layout.size());

            let (a, s, al): (usize, usize, usize) = st.ring[st.head];
            if a != 0 {
                if !intact(a, s) { die("GUARD: write after free\n"); }
                System.dealloc(a as *mut u8, Layout::from_size_align_unchecked(s, al));
            }
            st.ring[st.head] = (ptr as usize, layout.size(), layout.align());
            st.head = (st.head + 1) % SLOTS;
        }
        unlock();
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if !ENABLED.load(Relaxed) || layout.size() > MAX_BLOCK {
            return unsafe { System.realloc(ptr, layout, new_size) };
        }
        unsafe {
            let new: *mut u8 = self.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
            if !new.is_null() {
                std::ptr::copy_nonoverlapping(ptr, new, layout.size().min(new_size));
                self.dealloc(ptr, layout);
            }
            new
        }
    }
}

/// Checks every quarantined block now (called between cases, so that a late write is blamed on its case).
pub fn verify() {
    lock();
    unsafe {
        let st: &State = &*std::ptr::addr_of!(STATE);
        for &(a, s, _) in st.ring.iter() {
            if a == 0 { continue; }
            if !intact(a, s) { die("GUARD: write after free\n"); }
        }
    }
    unlock();
}
