//! update, identifiers, sizes, allocations
use super::{par_entries, Meta};
use crate::diff::{self, class, fatal, short};
use crate::inputs;
use std::io::ErrorKind;
use vcore::model::{self, Kind, ME};
use vcore::mon::Mon;
use vcore::ops::{Entry, Er};
use vcore::report::{hex, Report};
use vcore::val::Val;

/// R17
pub fn update(rep: &mut Report, entries: &[Entry]) -> Meta {
    let n = rep.scale(150, 2500);
    let tagged = rep.scale(1500, 20000);
    par_entries(rep, entries, |rep, e, rng| {
        let d = (e.decl)();
        for i in 0..if e.has("update") { tagged } else { n } {
            let Some(v) = inputs::gen_value(d, rng) else { continue };
            let mut v = v;
            for _ in 0..i % 4 {
                match diff::canon(e, &inputs::tweak(&v, rng)) {
                    Some(x) => v = x,
                    None => break,
                }
            }
            let m = match model::update(d, &v, &[]) {
                Err(ME::Undef(why)) => {
                    rep.count(&format!("not judged: {why}"));
                    continue;
                }
                m => m,
            };
            let r = (e.ops.update)(&v);
            let key = format!("{} update", e.name);
            let here = || format!("{} update of {}", e.name, short(&v));
            rep.distinct(&format!("{} {}", e.name, short(&v)));
            match (&m, &r) {
                (_, Err(x)) if fatal(x) => rep.violation(key, format!("{}: {x:?}", here())),
                (Ok(m), Ok(r)) => {
                    rep.eval(if *m == v { "nothing to change" } else { "changed" });
                    rep.check(m == r, &key, || format!("{}: {}, expected {}", here(), short(r), short(m)));
                    // again changes nothing, as long as no field depends on another one which is updated
                    if model::update(d, m, &[]).as_ref() == Ok(m) {
                        let again = (e.ops.update)(r);
                        rep.eval("again");
                        rep.check(again.as_ref() == Ok(r), &key, || format!("{}: again gives {again:?}", here()));
                    }
                    // and what is written is what the updated value says
                    if !inputs::long(d, m) {
                        diff::encode(rep, e, m);
                    }
                }
                (Err(a), Err(b)) => {
                    rep.eval("refused");
                    rep.check(class(a) == b.class(), &key, || format!("{}: {b:?}, expected {}", here(), class(a)));
                }
                (Ok(m), Err(b)) => rep.violation(key, format!("{}: {b:?}, expected {}", here(), short(m))),
                (Err(a), Ok(r)) => rep.violation(key, format!("{}: {}, expected {}", here(), short(r), class(a))),
            }
        }
    });
    Meta { level: "exploration", rule: "distinct (type, value) updated; types without update attributes must not change", assumptions: &[] }
}

/// part of R13
pub fn ids(rep: &mut Report, entries: &[Entry]) {
    let n = rep.scale(250, 4000);
    let chosen: Vec<Entry> = entries.iter().filter(|e| e.deku_id.is_some()).cloned().collect();
    par_entries(rep, &chosen, |rep, e, rng| {
        let d = (e.decl)();
        let Kind::Enum { variants, .. } = &d.kind else { return };
        let f = e.deku_id.unwrap();
        for _ in 0..n {
            let data = inputs::bytes(e, rng);
            let v = match (e.ops.from_bytes)(&data, 0) {
                Ok(r) => r.val,
                Err(_) => continue,
            };
            let Val::Var(i, vals) = &v else { continue };
            let var = &variants[*i];
            // only an explicit id is promised; others are refused, or the one which was read
            let want: Option<Val> = if var.explicit_id { var.id.clone() } else { None };
            let stored = if var.id.is_some() { var.id.clone() } else { vals.first().cloned() };
            let r = f(&v);
            rep.eval(if want.is_some() { "deku_id" } else { "deku_id of a variant without one" });
            rep.distinct(&format!("{} id {i}", e.name));
            let ok = match (&want, &r) {
                (Some(w), Ok(r)) => w == r,
                (None, Err(x)) => *x == Er::Id,
                (None, Ok(r)) => stored.as_ref() == Some(r),
                (Some(_), Err(_)) => false,
            };
            rep.check(ok, &format!("{} deku_id", e.name), || format!("{} {} read from {}: deku_id {r:?}, expected {want:?}", e.name, short(&v), hex(&data)));
        }
    });
}

/// R18
pub fn sizes(rep: &mut Report, entries: &[Entry]) -> Meta {
    let n = rep.scale(300, 5000);
    let chosen: Vec<Entry> = entries.iter().filter(|e| e.size_bits.is_some()).cloned().collect();
    par_entries(rep, &chosen, |rep, e, rng| {
        let d = (e.decl)();
        let (real, want) = e.size_bits.unwrap();
        rep.eval("declared size");
        rep.check(real == want, &format!("{} size", e.name), || format!("{}: SIZE_BITS is {real}, by its definition {want}", e.name));
        let key = format!("{} size used", e.name);
        let fixed = matches!(d.kind, Kind::Struct { .. });
        for _ in 0..n {
            let Some(v) = inputs::gen_value(d, rng) else { continue };
            if e.has("temp") || e.has("seek") {
                continue;
            }
            let Ok(w) = model::encode(d, &v) else { continue };
            let bits = w.bits_written + w.pending();
            // a fixed size is the size of every value, an enum's the one of its largest
            if fixed && bits != want {
                rep.count("value whose size is not fixed");
                continue;
            }
            rep.distinct(&format!("{} {}", e.name, short(&v)));
            let mut m = Mon::new(vec![]);
            let r = (e.ops.to_writer)(&v, &mut m);
            rep.eval("written size");
            rep.check(matches!(&r, Ok(_)) && if fixed { m.data.len() == real.div_ceil(8) } else { m.data.len() <= real.div_ceil(8) }, &key, || {
                format!("{} {}: {r:?}, {} bytes written, SIZE_BITS is {real}", e.name, short(&v), m.data.len())
            });
            let mut data = m.data.clone();
            data.extend([0; 4]);
            let mut m = Mon::new(data);
            let r = (e.ops.from_reader)(&mut m, 0);
            rep.eval("read size");
            let ok = match &r {
                Ok((n, _)) => {
                    if fixed {
                        *n == real
                    } else {
                        *n <= real
                    }
                }
                // not everything which is written can be read
                Err(_) => model::decode(d, &m.data, 0).is_err(),
            };
            rep.check(ok, &key, || format!("{} {}: {r:?}, SIZE_BITS is {real}", e.name, short(&v)));
        }
    });
    Meta {
        level: "exploration",
        rule: "distinct (type, value) whose written and read size was compared with the declared one, which was also compared with the definition",
        assumptions: &["types with temp fields are not judged"],
    }
}

/// Reading and writing these does not use the heap
pub fn no_alloc(rep: &mut Report, entries: &[Entry]) -> Meta {
    let n = rep.scale(120, 2000);
    par_entries(rep, entries, |rep, e, rng| {
        let d = (e.decl)();
        if heap(e) {
            return;
        }
        for _ in 0..n {
            let data = inputs::bytes(e, rng);
            // only accepted input: messages of errors are made on the heap
            let Ok(m) = model::decode(d, &data, 0) else { continue };
            let (r, u) = (e.ops.read_only)(&data);
            rep.eval("read");
            rep.distinct(&format!("{} {}", e.name, hex(&data)));
            rep.check(r.is_ok() && u.count == 0, &format!("{} allocates", e.name), || format!("{} read from {}: {r:?}, {} allocations of {} bytes", e.name, hex(&data), u.count, u.total));
            let mut buf = [0u8; 4096];
            if e.has("seek") || model::encode(d, &m.val).is_err() {
                continue;
            }
            let r = (e.ops.measure_write)(&m.val, &mut buf);
            rep.eval("write");
            match r {
                Ok(u) => {
                    rep.check(u.count == 0, &format!("{} allocates", e.name), || format!("{} {} written: {} allocations of {} bytes", e.name, short(&m.val), u.count, u.total));
                }
                Err(Er::Io(_)) => {}
                Err(x) => rep.violation(format!("{} write", e.name), format!("{} {}: {x:?}", e.name, short(&m.val))),
            }
        }
    });
    Meta {
        level: "exploration",
        rule: "distinct (type, input) of types made of values without heap storage, read and written with every allocation counted",
        assumptions: &["rejected input is not judged: error messages are on the heap"],
    }
}

fn heap(e: &Entry) -> bool {
    ["ty_list", "ty_cstr", "ty_ptr"].iter().any(|t| e.has(t)) || e.name == "MapPair"
}

/// Every error of a mixed workload
pub fn errors(rep: &mut Report, entries: &[Entry]) -> Meta {
    vcore::errs::start();
    let n = rep.scale(60, 900);
    par_entries(rep, entries, |_, e, rng| {
        let kinds = [ErrorKind::Other, ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::PermissionDenied, ErrorKind::InvalidData, ErrorKind::BrokenPipe];
        for _ in 0..n {
            let data = inputs::bytes(e, rng);
            let _ = (e.ops.from_bytes)(&data, 0);
            let _ = (e.ops.try_from)(&data);
            let cut = rng.below(data.len() + 1);
            let _ = (e.ops.from_bytes)(&data[..cut], 0);
            let mut m = Mon::new(data.clone()).failing(rng.below(6), *rng.pick(&kinds), true);
            let _ = (e.ops.from_reader)(&mut m, 0);
            if let Some(v) = inputs::gen_value((e.decl)(), rng) {
                let v = diff::canon(e, &inputs::tweak(&v, rng)).unwrap_or(v);
                if inputs::long((e.decl)(), &v) {
                    continue;
                }
                let _ = (e.ops.to_bytes)(&v);
                let _ = (e.ops.to_slice)(&v, &mut [0; 3]);
                let mut m = Mon::new(vec![]).failing(rng.below(4), *rng.pick(&kinds), true);
                let _ = (e.ops.to_writer)(&v, &mut m);
            }
        }
    });
    let seen = vcore::errs::take();
    rep.evaluations += seen.total;
    for (k, n) in &seen.by {
        rep.counters.insert(k.clone(), *n);
    }
    for t in &seen.texts {
        rep.distinct(t);
    }
    for w in seen.wrong {
        rep.violation("error", w);
    }
    // sizes no workload needs
    for bits in (0..70).chain([usize::MAX, usize::MAX - 6, usize::MAX - 7, 1 << 40]) {
        let n = deku::error::NeedSize::new(bits);
        rep.eval("size");
        rep.check(n.bit_size() == bits && n.byte_size() == bits / 8 + usize::from(bits % 8 != 0), "NeedSize", || format!("{bits} bits: {} bits, {} bytes", n.bit_size(), n.byte_size()));
    }
    Meta { level: "exploration", rule: "distinct texts among all errors of a workload of valid, changed and cut inputs, refused values and failing streams", assumptions: &[] }
}
