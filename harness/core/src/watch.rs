//! Notices operations which do not end: a thread which spends processor time in one and the same
//! operation for far longer than any input can need
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub struct Slot {
    task: String,
    ops: AtomicU64,
    what: Mutex<(&'static str, Vec<u8>)>,
}

static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());

thread_local! {
    static SLOT: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
}

fn with(f: impl FnOnce(&Slot)) {
    SLOT.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.get_or_insert_with(|| {
            let task = std::fs::read_link("/proc/thread-self").map(|p| format!("/proc/{}", p.display())).unwrap_or_default();
            let s = Arc::new(Slot { task, ops: AtomicU64::new(0), what: Mutex::new(("", vec![])) });
            if let Ok(mut l) = SLOTS.lock() {
                l.push(s.clone());
            }
            s
        });
        f(s);
    });
}

/// Another operation starts
pub fn op() {
    with(|s| {
        s.ops.fetch_add(1, Ordering::Relaxed);
    });
}

/// What it works on
pub fn on(what: &'static str, data: &[u8]) {
    with(|s| {
        s.ops.fetch_add(1, Ordering::Relaxed);
        if let Ok(mut w) = s.what.lock() {
            w.0 = what;
            w.1.clear();
            w.1.extend_from_slice(&data[..data.len().min(256)]);
        }
    });
}

fn cpu(s: &Slot) -> Option<u64> {
    // seconds on a processor
    let t = std::fs::read_to_string(format!("{}/schedstat", s.task)).ok()?;
    t.split_whitespace().next()?.parse::<u64>().ok()
}

/// Calls `found` with a description if an operation takes more than `limit` seconds of processor time
pub fn start(limit: u64, found: impl Fn(String) + Send + 'static) {
    std::thread::spawn(move || {
        let mut seen: Vec<(u64, u64)> = vec![];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            let slots: Vec<Arc<Slot>> = SLOTS.lock().map(|l| l.clone()).unwrap_or_default();
            for (i, s) in slots.iter().enumerate() {
                let (ops, Some(cpu)) = (s.ops.load(Ordering::Relaxed), cpu(s)) else { continue };
                if seen.len() <= i {
                    seen.push((ops, cpu));
                }
                if seen[i].0 != ops {
                    seen[i] = (ops, cpu);
                } else if cpu.saturating_sub(seen[i].1) > limit * 1_000_000_000 {
                    let text = s.what.lock().map(|w| format!("{} on {}", w.0, crate::report::hex(&w.1))).unwrap_or_default();
                    found(text);
                }
            }
        }
    });
}

/// What this thread works on
pub fn here() -> String {
    let mut t = String::new();
    with(|s| {
        if let Ok(w) = s.what.lock() {
            t = format!("{} on {}", w.0, crate::report::hex(&w.1));
        }
    });
    t
}
