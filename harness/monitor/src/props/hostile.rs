//! Any bytes: no panic, bounded memory, bounded work
use super::{par_entries, Meta};
use crate::diff::{fatal, short};
use crate::inputs;
use vcore::alloc::measure;
use vcore::model;
use vcore::mon::Mon;
use vcore::ops::{Entry, Er};
use vcore::report::{hex, Report};
use vcore::rng::Rng;

fn attack(e: &Entry, i: usize, rng: &mut Rng) -> Vec<u8> {
    let d = (e.decl)();
    let fill = *rng.pick(&[0xffu8, 0xff, 0x00, 0x7f, 0x80, 0x01, 0xfe]);
    match i % 6 {
        0 => vec![fill; rng.below(65)],
        1 => {
            let n = *rng.pick(&[3, 17, 64, 300, 2000]);
            rng.bytes(n)
        }
        2 | 3 => {
            // one field made extreme
            let Some(v) = inputs::valid(d, rng) else { return rng.bytes(16) };
            let mut b = v.bytes;
            if b.is_empty() {
                return b;
            }
            let at = rng.below(b.len());
            let n = *rng.pick(&[1, 2, 4, 8, 16]);
            for x in b.iter_mut().skip(at).take(n) {
                *x = fill;
            }
            if rng.bool() {
                let n = rng.below(40);
                b.extend(rng.bytes(n));
            }
            b
        }
        4 => {
            let Some(v) = inputs::valid(d, rng) else { return rng.bytes(16) };
            let mut b = v.bytes;
            let n = rng.below(b.len() + 1);
            b.truncate(n);
            let n = rng.below(9);
            b.extend(vec![fill; n]);
            b
        }
        _ => inputs::bytes(e, rng),
    }
}

pub fn allowance(len: usize) -> usize {
    256 * 1024 + 2048 * len
}

pub fn run(rep: &mut Report, entries: &[Entry]) -> Meta {
    let n = rep.scale(260, 4500);
    par_entries(rep, entries, |rep, e, rng| {
        for i in 0..n {
            let data = attack(e, i, rng);
            // elements without any bits can be as many as a count says
            if matches!(model::decode((e.decl)(), &data, 0), Err(model::ME::Undef("endless elements" | "too many elements"))) {
                rep.count("not read: elements without bits");
                continue;
            }
            let here = |what: &str| format!("{} {what} from {}", e.name, hex(&data));
            let (r, u) = (e.ops.read_only)(&data);
            rep.eval(match &r {
                Ok(()) => "accepted",
                Err(x) => x.class(),
            });
            rep.distinct(&format!("{} {} {}", e.name, hex(&data), r.is_ok()));
            if let Err(x) = &r {
                rep.check(!fatal(x), &format!("{} hostile bytes", e.name), || format!("{}: {x:?}", here("from_bytes")));
            }
            rep.check(u.peak <= allowance(data.len()), &format!("{} memory", e.name), || {
                format!("{}: {} bytes of memory (largest allocation {}) for {} bytes of input", here("from_bytes"), u.peak, u.largest, data.len())
            });
            // all of it is given back
            if r.is_ok() {
                rep.check(u.live <= 0 || u.live < 256, &format!("{} leak", e.name), || format!("{}: {} bytes not freed", here("from_bytes"), u.live));
            }
            // through a stream: the number of operations is bounded by the input
            let off = if i % 4 == 0 { rng.below(20) } else { 0 };
            let mut mon = Mon::new(data.clone());
            mon.step_limit = 4096 + 64 * data.len();
            let (r, u) = measure(|| (e.ops.from_reader)(&mut mon, off));
            rep.eval("from_reader");
            if let Err(x) = &r {
                rep.check(!fatal(x), &format!("{} hostile stream", e.name), || format!("{}: {x:?} after {} operations", here("from_reader"), mon.ops));
            }
            rep.check(u.peak <= allowance(data.len()), &format!("{} memory", e.name), || {
                format!("{}: {} bytes of memory (largest allocation {}) for {} bytes of input", here("from_reader"), u.peak, u.largest, data.len())
            });
            rep.check(mon.max_request <= allowance(data.len()), &format!("{} request", e.name), || format!("{}: {} bytes requested at once", here("from_reader"), mon.max_request));
            if i % 3 == 0 {
                let r = (e.ops.try_from)(&data);
                rep.eval("try_from");
                if let Err(x) = &r {
                    rep.check(!fatal(x), &format!("{} hostile bytes", e.name), || format!("{}: {x:?}", here("try_from")));
                }
                let mut mon = Mon::new(data.clone()).hostile(Rng::new(rng.u64()));
                mon.seekable = false;
                let r = (e.ops.read_noseek)(&mut mon);
                rep.eval("NoSeek");
                if let Err(x) = &r {
                    rep.check(!fatal(x), &format!("{} hostile stream", e.name), || format!("{}: {x:?}", here("NoSeek")));
                }
            }
            // values nobody would write
            if i % 5 == 0 {
                if let Some(v) = inputs::gen_value((e.decl)(), rng) {
                    let Some(v) = crate::diff::canon(e, &inputs::tweak(&inputs::tweak(&v, rng), rng)) else { continue };
                    let mut bad = vec![];
                    let mut look = |rep: &mut Report, what: &str, r: Option<Er>| {
                        rep.eval(what);
                        if let Some(x) = r.filter(fatal) {
                            bad.push(format!("{what}: {x:?}"));
                        }
                    };
                    if inputs::long(model_of(e), &v) {
                        continue;
                    }
                    look(rep, "to_bytes", (e.ops.to_bytes)(&v).err());
                    look(rep, "update", (e.ops.update)(&v).err());
                    let mut small = [0u8; 7];
                    look(rep, "to_slice", (e.ops.to_slice)(&v, &mut small).err());
                    if !e.has("seek") {
                        look(rep, "to_bits", (e.ops.to_bits)(&v).err());
                    }
                    if let Some(f) = e.deku_id {
                        look(rep, "deku_id", f(&v).err());
                    }
                    for b in bad {
                        rep.violation(format!("{} hostile value", e.name), format!("{} {}: {b}", e.name, short(&v)));
                    }
                }
            }
        }
    });
    Meta {
        level: "exploration",
        rule: "distinct (type, hostile bytes, outcome): reads of untrusted bytes watched for panics, memory, stream operations and time, and writes of arbitrary values for panics",
        assumptions: &[
            "memory may be 256 KiB and 2 KiB for every byte of input",
            "lists whose elements take no bits are not read with hostile counts, nothing in the input bounds them",
        ],
    }
}

fn model_of(e: &Entry) -> &'static model::Decl {
    (e.decl)()
}
