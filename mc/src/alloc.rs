//! Global allocator: refuses (by ending the worker with a recognisable status) requests no input of the
//! checks can justify, so that runaway reservations become verdicts instead of out-of-memory kills.
//! It is also a scheduling point source for the controlled-thread explorations.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed};
pub struct A;
pub const ONE_REQUEST: usize = 0x8000_0000 + (64 << 20);
pub const LIVE_MAX: i64 = 26 << 30;
const BIG: usize = 1 << 16;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static MAX_SEEN: AtomicUsize = AtomicUsize::new(0);
extern "C" {
    fn _exit(code: i32) -> !;
}
#[cold]
fn die() -> ! {
    unsafe { _exit(77) }
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        crate::sched_point();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        crate::sched_point();
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        gone(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        gone(l.size());
        note(n);
        crate::sched_point();
        System.realloc(p, l, n)
    }
}
#[inline]
fn gone(n: usize) {
    if n >= BIG {
        LIVE.fetch_sub(n as i64, Relaxed);
    }
}
#[inline]
fn note(n: usize) {
    if n >= BIG {
        if n > (1 << 20) {
            MAX_SEEN.fetch_max(n, Relaxed);
            if n > ONE_REQUEST {
                die()
            }
        }
        if LIVE.fetch_add(n as i64, Relaxed) > LIVE_MAX {
            die()
        }
    }
}
