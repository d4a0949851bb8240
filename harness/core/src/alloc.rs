//! Counting allocator
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

pub struct Counting;

/// No input of these workloads needs that much at once
pub const HUGE: usize = 1 << 31;
static ON_HUGE: std::sync::Mutex<Option<fn(usize)>> = std::sync::Mutex::new(None);

/// Called for an allocation which would end the process
pub fn on_huge(f: fn(usize)) {
    if let Ok(mut h) = ON_HUGE.lock() {
        *h = Some(f);
    }
}

fn note(size: usize) {
    if size >= HUGE {
        let f = ON_HUGE.lock().ok().and_then(|mut f| f.take());
        if let Some(f) = f {
            f(size);
        }
    }
    let _ = ON.try_with(|on| {
        if on.get() {
            COUNT.with(|c| c.set(c.get() + 1));
            TOTAL.with(|c| c.set(c.get().saturating_add(size)));
            LARGEST.with(|c| c.set(c.get().max(size)));
            LIVE.with(|c| c.set(c.get() + size as isize));
            PEAK.with(|p| p.set(p.get().max(LIVE.with(Cell::get))));
        }
    });
}
fn gone(size: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            LIVE.with(|c| c.set(c.get() - size as isize));
        }
    });
}

// SAFETY: forwards to the system allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        gone(l.size());
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        gone(l.size());
        note(n);
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    pub count: usize,
    pub total: usize,
    pub largest: usize,
    pub peak: usize,
    /// allocated and not freed (negative: the other way round)
    pub live: isize,
}

/// What `f` allocates on this thread
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    COUNT.with(|c| c.set(0));
    TOTAL.with(|c| c.set(0));
    LARGEST.with(|c| c.set(0));
    LIVE.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    ON.with(|c| c.set(true));
    let r = f();
    ON.with(|c| c.set(false));
    let u = Usage {
        count: COUNT.with(Cell::get),
        total: TOTAL.with(Cell::get),
        largest: LARGEST.with(Cell::get),
        peak: PEAK.with(Cell::get).max(0) as usize,
        live: LIVE.with(Cell::get),
    };
    (r, u)
}
