//! What is written is read back, and what is read is written back
use super::{par_entries, Meta};
use crate::diff::{self, fatal, short};
use crate::inputs;
use vcore::model;
use vcore::mon::Mon;
use vcore::ops::{Entry, Er};
use vcore::report::{hex, Report};
use vcore::val::Val;

/// The model's prediction of a round trip: the bytes, and are all of them read?
fn predicted(e: &Entry, v: &Val) -> Option<(Vec<u8>, bool)> {
    let d = (e.decl)();
    let mut w = model::encode(d, v).ok()?;
    if w.mixed {
        return None;
    }
    w.finalize();
    let m = model::decode(d, &w.out, 0).ok()?;
    if m.val != *v {
        return None;
    }
    let all = m.touched == w.out.len();
    Some((w.out, all))
}

/// R01
pub fn write_read(rep: &mut Report, entries: &[Entry]) -> Meta {
    let n = rep.scale(130, 2200);
    par_entries(rep, entries, |rep, e, rng| {
        for i in 0..n {
            let Some(v) = inputs::gen_value((e.decl)(), rng) else { continue };
            let v = if i % 3 == 2 {
                match diff::canon(e, &inputs::tweak(&v, rng)) {
                    Some(v) => v,
                    None => continue,
                }
            } else {
                v
            };
            let Some((want, all)) = predicted(e, &v) else {
                rep.count("value which cannot come back (by its definition)");
                continue;
            };
            rep.eval("written and read back");
            rep.distinct(&format!("{} {}", e.name, short(&v)));
            let key = format!("{} round trip", e.name);
            let bytes = match (e.ops.to_bytes)(&v) {
                Ok(b) => b,
                Err(x) => {
                    rep.violation(key, format!("{} {}: to_bytes {x:?}, expected {}", e.name, short(&v), hex(&want)));
                    continue;
                }
            };
            let ok = |r: &Result<Val, Er>| matches!(r, Ok(x) if *x == v);
            let back = (e.ops.from_bytes)(&bytes, 0);
            let val = back.as_ref().map(|r| r.val.clone()).map_err(Clone::clone);
            rep.check(ok(&val), &key, || format!("{} {} written as {} is read as {val:?}", e.name, short(&v), hex(&bytes)));
            if let (Ok(r), true) = (&back, all) {
                // everything which was written is read
                rep.check(r.rest.0 <= 1 && (r.rest.0 == 0 || r.rest.1 != 0), &key, || {
                    format!("{} {} written as {} leaves {:?} unread", e.name, short(&v), hex(&bytes), r.rest)
                });
            }
            // another way out and in
            let mut m = Mon::new(vec![]);
            if (e.ops.to_writer)(&v, &mut m).is_ok() {
                let mut m = Mon::new(m.data);
                let r = (e.ops.from_reader)(&mut m, 0).map(|r| r.1);
                rep.eval("through a writer and a reader");
                rep.check(ok(&r), &key, || format!("{} {}: through a writer and a reader {r:?}", e.name, short(&v)));
            }
            // twice is the same as once
            if let Ok(val) = &val {
                let again = (e.ops.to_bytes)(val);
                rep.eval("written again");
                let same = match &again {
                    Ok(b) => *b == bytes || e.has("unordered") && b.len() == bytes.len(),
                    Err(_) => false,
                };
                rep.check(same, &key, || format!("{} {}: first {}, then {again:?}", e.name, short(&v), hex(&bytes)));
            }
        }
    });
    Meta {
        level: "exploration",
        rule: "distinct (type, value) written and read back, which by the definition of the type has to come back equal",
        assumptions: &["values which their definition cannot bring back (skipped or conditional fields with other values, duplicated keys, mapped fields) are not asked to"],
    }
}

/// R02
pub fn read_write(rep: &mut Report, entries: &[Entry]) -> Meta {
    let n = rep.scale(170, 2600);
    par_entries(rep, entries, |rep, e, rng| {
        let d = (e.decl)();
        if e.has("unordered") {
            return;
        }
        for _ in 0..n {
            let data = inputs::bytes(e, rng);
            let Ok(m) = model::decode(d, &data, 0) else { continue };
            let Ok(mut w) = model::encode(d, &m.val) else { continue };
            if w.mixed {
                continue;
            }
            let bits = m.bits_read;
            let full = bits / 8;
            w.finalize();
            // does the definition of the type keep all bits?
            let keeps = w.out.len() == bits.div_ceil(8) && full <= data.len() && w.out[..full] == data[..full];
            let r = match (e.ops.from_bytes)(&data, 0) {
                Ok(r) => r,
                Err(x) => {
                    rep.violation(format!("{} read", e.name), format!("{} {}: {x:?}", e.name, hex(&data)));
                    continue;
                }
            };
            let out = (e.ops.to_bytes)(&r.val);
            rep.distinct(&format!("{} {} {keeps}", e.name, hex(&w.out)));
            let key = format!("{} bytes", e.name);
            match &out {
                Err(x) => {
                    rep.eval("read but not written");
                    rep.violation(key, format!("{} {}: read {}, written {x:?} ({})", e.name, hex(&data), short(&r.val), fatal(x)));
                }
                Ok(out) => {
                    if keeps {
                        rep.eval("same bytes");
                        rep.check(out[..full.min(out.len())] == data[..full] && *out == w.out, &key, || {
                            format!("{}: {} ({bits} bits) read and written is {}", e.name, hex(&data), hex(out))
                        });
                    } else {
                        // padding and the like are written as zeros
                        rep.eval("normalized bytes");
                        rep.check(*out == w.out, &key, || format!("{}: {} read and written is {}, expected {}", e.name, hex(&data), hex(out), hex(&w.out)));
                        // and then do not change any more
                        if let Ok(r2) = (e.ops.from_bytes)(out, 0) {
                            if r2.val == r.val {
                                rep.check((e.ops.to_bytes)(&r2.val).as_ref() == Ok(out), &key, || format!("{}: {} changes", e.name, hex(out)));
                            }
                        }
                    }
                }
            }
        }
    });
    Meta {
        level: "exploration",
        rule: "distinct (type, canonical bytes) read and written again",
        assumptions: &["types with unordered collections are not judged", "the unused bits of a last partial byte are written as zeros"],
    }
}
