//! A monitor on every error which the library returns: how it converts and describes itself
use deku::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

#[derive(Default)]
pub struct Seen {
    pub total: u64,
    pub by: BTreeMap<String, u64>,
    pub texts: BTreeSet<String>,
    pub wrong: Vec<String>,
}

static ON: AtomicBool = AtomicBool::new(false);
static SEEN: Mutex<Option<Seen>> = Mutex::new(None);

pub fn start() {
    ON.store(true, Ordering::Relaxed);
}

pub fn take() -> Seen {
    SEEN.lock().ok().and_then(|mut s| s.take()).unwrap_or_default()
}

pub fn note(e: &DekuError) {
    if !ON.load(Ordering::Relaxed) {
        return;
    }
    let mut wrong = vec![];
    let text = e.to_string();
    let (class, kind) = match e {
        DekuError::Incomplete(n) => {
            if n.bit_size() == 0 || n.byte_size() != n.bit_size().div_ceil(8) {
                wrong.push(format!("needs {} bits, {} bytes", n.bit_size(), n.byte_size()));
            }
            if !text.contains(&n.bit_size().to_string()) || !text.contains(&n.byte_size().to_string()) {
                wrong.push("the text does not say how much".to_string());
            }
            ("Incomplete", std::io::ErrorKind::UnexpectedEof)
        }
        DekuError::Parse(t) => {
            if !text.contains(t.as_ref()) {
                wrong.push("the text is lost".to_string());
            }
            ("Parse", std::io::ErrorKind::InvalidData)
        }
        DekuError::InvalidParam(t) => {
            if !text.contains(t.as_ref()) {
                wrong.push("the text is lost".to_string());
            }
            ("InvalidParam", std::io::ErrorKind::InvalidInput)
        }
        DekuError::Assertion(t) => {
            if !text.contains(t.as_ref()) {
                wrong.push("the text is lost".to_string());
            }
            ("Assertion", std::io::ErrorKind::InvalidData)
        }
        DekuError::IdVariantNotFound => ("IdVariantNotFound", std::io::ErrorKind::NotFound),
        DekuError::Io(k) => {
            if !text.contains(&format!("{k:?}")) {
                wrong.push("the text does not say the kind".to_string());
            }
            ("Io", *k)
        }
        _ => ("other", std::io::ErrorKind::Other),
    };
    if text.is_empty() {
        wrong.push("no text".to_string());
    }
    let io = std::io::Error::from(e.clone());
    if io.kind() != kind {
        wrong.push(format!("converts to {:?}", io.kind()));
    }
    match io.get_ref().and_then(|r| r.downcast_ref::<DekuError>()) {
        Some(r) if r == e => {}
        r => wrong.push(format!("the cause is {r:?}")),
    }
    // as `?` does in a custom reader which uses io::Result
    let back = DekuError::from(io);
    if back != DekuError::Io(kind) {
        wrong.push(format!("comes back as {back:?}"));
    }
    if let Ok(mut s) = SEEN.lock() {
        let s = s.get_or_insert_with(Seen::default);
        s.total += 1;
        *s.by.entry(format!("{class} {kind:?}")).or_default() += 1;
        if s.texts.len() < 100_000 {
            s.texts.insert(text);
        }
        if s.wrong.len() < 50 && !wrong.is_empty() {
            s.wrong.push(format!("{e:?}: {}", wrong.join(", ")));
        }
    }
}
