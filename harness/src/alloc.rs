//! Counting global allocator. Everything is per thread: a case runs on one thread, so that the number of live
//! bytes and the largest single request of a case are exact.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// A single request above this size ends the run at once as a violation of the running case: serving it could
/// take the whole machine down, and refusing it would abort the process.
const HARD_LIMIT: usize = 256 << 20;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static MAX_REQUEST: Cell<usize> = const { Cell::new(0) };
    static GUARDED: Cell<bool> = const { Cell::new(false) };
}

pub struct Counting;

fn note(size: usize) {
    let _ = LIVE.try_with(|c| c.set(c.get() + size as isize));
    let _ = MAX_REQUEST.try_with(|c| {
        if size > c.get() {
            c.set(size)
        }
    });
    if size > HARD_LIMIT && GUARDED.try_with(|g| g.replace(false)).unwrap_or(false) {
        crate::runner::fatal_violation(&format!(
            "a single allocation of {size} bytes was requested while handling a small input"
        ));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        note(layout.size());
        System.alloc(layout)
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        note(layout.size());
        System.alloc_zeroed(layout)
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - layout.size() as isize));
        System.dealloc(ptr, layout)
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        note(new_size);
        let _ = LIVE.try_with(|c| c.set(c.get() - layout.size() as isize));
        System.realloc(ptr, layout, new_size)
    }
}

/// Live bytes allocated on this thread
pub fn live() -> isize {
    LIVE.with(|c| c.get())
}

pub fn reset_max_request() {
    MAX_REQUEST.with(|c| c.set(0));
}

pub fn max_request() -> usize {
    MAX_REQUEST.with(|c| c.get())
}

/// Returns what it was before
pub fn guard(on: bool) -> bool {
    GUARDED.with(|c| c.replace(on))
}
