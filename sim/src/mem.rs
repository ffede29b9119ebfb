//! Global allocator with a ceiling: a runaway allocation inside the code under test is reported as a
//! violation by seed instead of taking the machine down.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Capped;
thread_local! {
    static ALLOCS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Allocations asked for by this thread so far.
pub fn allocs() -> u64 {
    ALLOCS.with(|a| a.get())
}
fn note() {
    let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
}
const LIMIT: usize = 1 << 31;

unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note();
        if l.size() > LIMIT {
            over();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note();
        if l.size() > LIMIT {
            over();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note();
        if n > LIMIT {
            over();
        }
        System.realloc(p, l, n)
    }
}

static ELSEWHERE: std::sync::OnceLock<extern "C" fn()> = std::sync::OnceLock::new();
/// where another simulator hosts this one: whom to tell
pub fn on_over(f: extern "C" fn()) {
    let _ = ELSEWHERE.set(f);
}

pub fn over() -> ! {
    if let Some(f) = ELSEWHERE.get() {
        f();
    }
    let slot = crate::engine::MY_SLOT.with(|s| s.get());
    crate::engine::fatal("unbounded allocation", slot)
}
