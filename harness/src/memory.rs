//! How much memory the code asks for at once.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

/// The most that a single request may be for; not limited by default.
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

thread_local! {
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}

pub struct Watched;

fn note(size: usize) {
    let _ = LARGEST.try_with(|largest| {
        if size > largest.get() {
            largest.set(size);
        }
    });
}

unsafe impl GlobalAlloc for Watched {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        note(layout.size());
        System.alloc(layout)
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        note(layout.size());
        System.alloc_zeroed(layout)
    }

    unsafe fn dealloc(&self, pointer: *mut u8, layout: Layout) {
        System.dealloc(pointer, layout)
    }

    unsafe fn realloc(&self, pointer: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        note(size);
        System.realloc(pointer, layout, size)
    }
}

pub fn limit(mebibytes: usize) {
    LIMIT.store(mebibytes << 20, Ordering::Relaxed);
}

/// Start over.
pub fn reset() {
    LARGEST.with(|largest| largest.set(0));
}

/// The largest request since the start when it was for too much.
pub fn excess() -> Option<usize> {
    let largest = LARGEST.with(|largest| largest.get());
    if largest > LIMIT.load(Ordering::Relaxed) {
        Some(largest)
    } else {
        None
    }
}
