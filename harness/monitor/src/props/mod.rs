#[macro_use]
mod scalar;
mod facts;
mod fields;
mod hostile;
mod lowlevel;
mod reprs;
mod roundtrip;
mod streams;

use crate::diff;
use crate::inputs;
use vcore::ops::Entry;
use vcore::report::Report;
use vcore::rng::Rng;

pub struct Meta {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

/// Spread work over threads; every item has its own stream of random numbers
pub fn par<T: Sync>(rep: &mut Report, items: &[T], label: impl Fn(&T) -> String + Sync, f: impl Fn(&mut Report, &T, &mut Rng) + Sync) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let parts: Vec<Vec<(usize, Report)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
            .map(|_| {
                s.spawn(|| {
                    let mut out = vec![];
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        let Some(it) = items.get(i) else { break };
                        let mut r = rep.fork();
                        let mut rng = Rng::labelled(r.seed, &format!("{} {}", r.prop, label(it)));
                        f(&mut r, it, &mut rng);
                        out.push((i, r));
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("a worker failed")).collect()
    });
    let mut all: Vec<(usize, Report)> = parts.into_iter().flatten().collect();
    all.sort_by_key(|p| p.0);
    for (_, r) in all {
        rep.merge(r);
    }
}

pub fn par_entries(rep: &mut Report, entries: &[Entry], f: impl Fn(&mut Report, &Entry, &mut Rng) + Sync) {
    par(rep, entries, |e| e.name.to_string(), f);
}

const FORMAT: Meta = Meta {
    level: "exploration",
    rule: "distinct (type, outcome, input shape) triples among executions of the real code which the reference model judged",
    assumptions: &[],
};

fn diff_all(rep: &mut Report, entries: &[Entry], want: &(dyn Fn(&Entry) -> bool + Sync), n: (usize, usize)) {
    let chosen: Vec<Entry> = entries.iter().filter(|e| want(e)).cloned().collect();
    let n = rep.scale(n.0, n.1);
    par_entries(rep, &chosen, |rep, e, rng| {
        for i in 0..n {
            let b = inputs::bytes(e, rng);
            let off = if i % 4 == 0 && !b.is_empty() { rng.below(8) } else { 0 };
            if let Some(m) = diff::decode(rep, e, &b, off) {
                rep.distinct(&format!("{} r {} {off} {}", e.name, diff::outcome(&m), b.len()));
                if let Ok(m) = m {
                    // what was read is written as the format says
                    if i % 2 == 0 {
                        diff::encode(rep, e, &m.val);
                    }
                    if rng.chance(1, 3) {
                        if let Some(v) = diff::canon(e, &inputs::tweak(&m.val, rng)) {
                            diff::encode(rep, e, &v);
                        }
                    }
                }
            }
            if i % 3 == 0 {
                if let Some(v) = inputs::gen_value((e.decl)(), rng) {
                    rep.distinct(&format!("{} w {}", e.name, diff::short(&v)));
                    diff::encode(rep, e, &v);
                    if let Some(v) = diff::canon(e, &inputs::tweak(&v, rng)) {
                        diff::encode(rep, e, &v);
                    }
                }
            }
        }
    });
}

pub fn run(prop: &str, rep: &mut Report, entries: &[Entry]) -> Option<Meta> {
    Some(match prop {
        "DIFF" => {
            diff_all(rep, entries, &|_| true, (300, 3000));
            FORMAT
        }
        "R10" => hostile::run(rep, entries),
        "R01" => roundtrip::write_read(rep, entries),
        "R02" => roundtrip::read_write(rep, entries),
        "R03" => scalar::run(rep, false),
        "R11" => scalar::run(rep, true),
        "R04" => streams::accounting(rep, entries),
        "R05" => streams::read_paths(rep, entries),
        "R06" => streams::write_paths(rep, entries),
        "R07" => streams::truncation(rep, entries),
        "R08" => streams::read_faults(rep, entries),
        "R09" => streams::write_faults(rep, entries),
        "R12" => fields::limits(rep, entries),
        "R13" => {
            facts::ids(rep, entries);
            fields::tagged(rep, entries, &|e| e.has("enum"))
        }
        "R14" => fields::tagged(rep, entries, &|e| ["magic", "assert", "assert_eq"].iter().any(|t| e.has(t))),
        "R15" => fields::tagged(rep, entries, &|e| ["cond", "skip", "default", "temp", "temp_value", "map", "reader", "writer"].iter().any(|t| e.has(t))),
        "R16" => fields::tagged(rep, entries, &|e| ["pad", "seek"].iter().any(|t| e.has(t))),
        "R20" => fields::tagged(rep, entries, &|e| ["ctx", "order", "endian"].iter().any(|t| e.has(t))),
        "R17" => facts::update(rep, entries),
        "R18" => facts::sizes(rep, entries),
        "R25" => facts::no_alloc(rep, entries),
        "R23" => lowlevel::sequences(rep),
        "R24" => reprs::run(rep, entries),
        "R26" => facts::errors(rep, entries),
        "R22" => streams::noseek(rep, entries),
        _ => return None,
    })
}
