//! What a check observed, and its verdict
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

pub struct Report {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub evaluations: u64,
    pub distinct: BTreeSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: Vec<(String, String)>,
    pub known_hits: BTreeMap<String, u64>,
    pub notes: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// stable name of the call site or input class
    pub key: String,
    pub detail: String,
}

pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h = (h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(64) {
        let _ = write!(s, "{x:02x}");
    }
    if b.len() > 64 {
        let _ = write!(s, "..({} bytes)", b.len());
    }
    s
}

impl Report {
    pub fn new(prop: &str, tier: &str, seed: u64) -> Self {
        Report {
            prop: prop.into(),
            tier: tier.into(),
            seed,
            evaluations: 0,
            distinct: BTreeSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            known: vec![],
            known_hits: BTreeMap::new(),
            notes: vec![],
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// scale an amount of work by tier
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn eval(&mut self, what: &str) {
        self.evaluations += 1;
        self.count(what);
    }
    pub fn count(&mut self, what: &str) {
        if let Some(c) = self.counters.get_mut(what) {
            *c += 1;
        } else {
            self.counters.insert(what.to_string(), 1);
        }
    }
    pub fn distinct(&mut self, key: &str) {
        self.distinct.insert(hash(key.as_bytes()));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 12 || (self.samples.len() < 24 && self.evaluations % 997 == 0) {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn violation(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        let (key, detail) = (key.into(), detail.into());
        let id = format!("{key} :: {detail}");
        if let Some(k) = self.known.iter().find(|k| id.contains(&k.0)) {
            *self.known_hits.entry(k.0.clone()).or_default() += 1;
            return;
        }
        self.count("violations");
        if self.violations.len() < 60 && self.violations.iter().filter(|v| v.key == key).count() < 3 {
            self.violations.push(Violation { key, detail });
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.violation(key, d);
        }
        ok
    }
    /// The parts of several threads
    pub fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 24 {
                self.samples.push(s);
            }
        }
        for v in o.violations {
            if self.violations.len() < 60 && self.violations.iter().filter(|x| x.key == v.key).count() < 3 {
                self.violations.push(v);
            }
        }
        for (k, v) in o.known_hits {
            *self.known_hits.entry(k).or_default() += v;
        }
        self.notes.extend(o.notes);
    }
    pub fn fork(&self) -> Report {
        let mut r = Report::new(&self.prop, &self.tier, self.seed);
        r.known = self.known.clone();
        r
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
