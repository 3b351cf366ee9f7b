//! Global allocator with a process-wide ceiling (a run-away growth ends as an abort that the
//! parent process attributes) and a per-thread count of allocations made while `watch`ing.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
const CEIL: usize = 6 << 30;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
fn note() {
    let _ = ON.try_with(|o| {
        if o.get() {
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note();
        if LIVE.fetch_add(l.size(), Ordering::Relaxed) + l.size() > CEIL {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note();
        if n > l.size() && LIVE.load(Ordering::Relaxed) + (n - l.size()) > CEIL {
            return std::ptr::null_mut();
        }
        LIVE.fetch_add(n, Ordering::Relaxed);
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        unsafe { System.realloc(p, l, n) }
    }
}
/// Run a library operation that must not allocate; allocations are counted, not prevented.
pub fn watch<T>(f: impl FnOnce() -> T) -> T {
    struct Off(bool);
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(self.0));
        }
    }
    CALLS.with(|c| c.set(c.get() + 1));
    let _off = Off(ON.with(|o| o.replace(true)));
    f()
}
/// (operations watched, allocations seen) since the last call
pub fn take() -> (u64, u64) {
    (CALLS.with(|c| c.replace(0)), COUNT.with(|c| c.replace(0)))
}
