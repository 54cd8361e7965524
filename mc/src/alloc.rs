//! A counting allocator: what one thread allocates between `start` and `stop`.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[derive(Clone, Copy, Debug, Default)]
pub struct Stat {
    /// Calls that obtained memory (`realloc` included).
    pub allocs: u64,
    /// Most bytes held at once beyond what was held at the start.
    pub peak: i64,
    /// Largest single request.
    pub largest: usize,
    now: i64,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static STAT: Cell<Stat> = const { Cell::new(Stat { allocs: 0, peak: 0, largest: 0, now: 0 }) };
}

pub struct Counting;

/// Requests beyond this fail, so that runaway code cannot take the machine with it.
const LIMIT: usize = 4 << 30;

fn note(got: usize, gone: usize) {
    if ON.with(|o| o.get()) {
        STAT.with(|s| {
            let mut v = s.get();
            if got > 0 {
                v.allocs += 1;
                v.largest = v.largest.max(got);
            }
            v.now += got as i64 - gone as i64;
            v.peak = v.peak.max(v.now);
            s.set(v);
        });
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size(), 0);
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size(), 0);
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n, l.size());
        if n > LIMIT {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(0, l.size());
        System.dealloc(p, l)
    }
}

pub fn start() {
    STAT.with(|s| s.set(Stat::default()));
    ON.with(|o| o.set(true));
}
/// Stop counting for a moment (harness work inside a decode).
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    let was = ON.with(|o| o.replace(false));
    let r = f();
    ON.with(|o| o.set(was));
    r
}
pub fn stop() -> Stat {
    ON.with(|o| o.set(false));
    STAT.with(|s| s.get())
}
