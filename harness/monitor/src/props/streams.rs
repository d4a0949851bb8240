//! Where a value ends, how it is delivered, and what happens when the stream ends or fails
use super::{par_entries, Meta};
use crate::diff::{self, fatal, short};
use crate::inputs;
use std::io::ErrorKind;
use vcore::model::{self, ME};
use vcore::mon::Mon;
use vcore::ops::{Entry, Er};
use vcore::report::{hex, Report};
use vcore::rng::Rng;

/// The number of unused bytes and bits, and positions of the stream
pub fn accounting(rep: &mut Report, entries: &[Entry]) -> Meta {
    let n = rep.scale(140, 2500);
    par_entries(rep, entries, |rep, e, rng| {
        let d = (e.decl)();
        let seeks = e.has("seek");
        let order = e.has("order");
        for i in 0..n {
            let mut data = inputs::bytes(e, rng);
            if i % 3 == 0 {
                // several values
                let more = inputs::bytes(e, rng);
                data.extend(more);
            }
            let off = if i % 2 == 0 && !data.is_empty() { rng.below(17) } else { 0 };
            let m = match model::decode(d, &data, off) {
                Ok(m) => m,
                Err(_) => continue,
            };
            rep.distinct(&format!("{} {} {off} {}", e.name, m.bits_read, data.len()));
            let here = |what: &str| format!("{} {what}({}, {off})", e.name, hex(&data));
            // bytes
            rep.eval("from_bytes");
            match (e.ops.from_bytes)(&data, off) {
                Ok(r) => {
                    let used = m.bits_read / 8;
                    if used <= data.len() {
                        let want = (data.len() - used, m.bits_read % 8);
                        rep.check(r.rest == want && r.suffix, &format!("{} rest", e.name), || {
                            format!("{}: rest {:?} (suffix {}), expected {want:?}", here("from_bytes"), r.rest, r.suffix)
                        });
                        // the rest is where the next value starts
                        if !seeks && !order && r.rest.0 > 0 {
                            let rest = &data[data.len() - r.rest.0..];
                            if let Ok(two) = model::decode_n(d, &data, off, 2) {
                                rep.eval("from_bytes of the rest");
                                match (e.ops.from_bytes)(rest, r.rest.1) {
                                    Ok(r2) => {
                                        if !offsets(e) {
                                            rep.check(r2.val == two[1].val, &format!("{} chained", e.name), || {
                                                format!("{}: second value {}, expected {}", here("from_bytes"), short(&r2.val), short(&two[1].val))
                                            });
                                        }
                                    }
                                    Err(x) => {
                                        if !offsets(e) {
                                            rep.violation(format!("{} chained", e.name), format!("{}: second value {x:?}", here("from_bytes")));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                Err(x) => rep.violation(format!("{} rest", e.name), format!("{}: {x:?}", here("from_bytes"))),
            }
            // reader
            let mut mon = Mon::new(data.clone());
            rep.eval("from_reader");
            match (e.ops.from_reader)(&mut mon, off) {
                Ok((used, _)) => {
                    rep.check(used == m.bits_read, &format!("{} bits read", e.name), || {
                        format!("{}: {used} bits read, expected {}", here("from_reader"), m.bits_read)
                    });
                    rep.check(mon.pos as usize == m.touched, &format!("{} stream position", e.name), || {
                        format!("{}: stream at byte {}, the value needs {}", here("from_reader"), mon.pos, m.touched)
                    });
                }
                Err(x) => rep.violation(format!("{} bits read", e.name), format!("{}: {x:?}", here("from_reader"))),
            }
            // consecutive values from one reader
            let k = rng.range(1, 3);
            let want = match model::decode_n(d, &data, off, k) {
                Ok(w) => w,
                Err(_) => continue,
            };
            let mut mon = Mon::new(data.clone());
            rep.eval("consecutive reads");
            match (e.ops.raw_read_n)(&mut mon, off, k) {
                Ok(rs) => {
                    for (r, w) in rs.iter().zip(&want) {
                        rep.check(r.val == w.val, &format!("{} consecutive", e.name), || format!("{} x{k}: {} expected {}", here("read"), short(&r.val), short(&w.val)));
                        rep.check(r.bits_read == w.bits_read, &format!("{} consecutive bits", e.name), || format!("{} x{k}: {} bits, expected {}", here("read"), r.bits_read, w.bits_read));
                        rep.check(r.rest == w.window, &format!("{} rest bits", e.name), || format!("{} x{k}: rest {:?}, expected {:?}", here("read"), r.rest, w.window));
                    }
                    rep.check(mon.pos as usize == want[k - 1].touched, &format!("{} read ahead", e.name), || format!("{} x{k}: stream at {}, needed {}", here("read"), mon.pos, want[k - 1].touched));
                }
                Err(x) => rep.violation(format!("{} consecutive", e.name), format!("{} x{k}: {x:?}", here("read"))),
            }
        }
    });
    Meta {
        level: "exploration",
        rule: "distinct (type, bits consumed, start offset, input length) among reads whose rest, bit count and stream position were checked",
        assumptions: &["types with a least significant first bit order are not continued from the rest of from_bytes, which cannot express their position"],
    }
}

/// reads where it is
fn offsets(e: &Entry) -> bool {
    e.has("off") || e.has("seek")
}

fn same<T: PartialEq>(a: &Result<T, Er>, b: &Result<T, Er>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => a.class() == b.class() && !fatal(a) && !fatal(b),
        _ => false,
    }
}

/// All ways to read give the same
pub fn read_paths(rep: &mut Report, entries: &[Entry]) -> Meta {
    let n = rep.scale(90, 1500);
    par_entries(rep, entries, |rep, e, rng| {
        for i in 0..n {
            let data = inputs::bytes(e, rng);
            let off = if i % 3 == 0 && !data.is_empty() { rng.below(9) } else { 0 };
            let base = (e.ops.from_bytes)(&data, off);
            if let Err(x) = &base {
                if fatal(x) {
                    rep.violation(format!("{} read", e.name), format!("{} from_bytes({}, {off}): {x:?}", e.name, hex(&data)));
                    continue;
                }
            }
            let val = base.as_ref().map(|r| r.val.clone()).map_err(Clone::clone);
            let tag = match &val {
                Ok(_) => "ok".to_string(),
                Err(x) => x.class().to_string(),
            };
            let here = |what: &str, r: &dyn std::fmt::Debug| format!("{} ({}, {off}): {what} gives {r:?}, from_bytes {val:?}", e.name, hex(&data));
            // whole, in pieces, and with interruptions
            let mut streams = vec![("from_reader", Mon::new(data.clone())), ("from_reader byte by byte", Mon::new(data.clone()).chunked(1))];
            streams.push(("from_reader in pieces", Mon::new(data.clone()).chunked(rng.range(1, 5))));
            streams.push(("from_reader interrupted", Mon::new(data.clone()).hostile(Rng::new(rng.u64()))));
            let mut pos = None;
            for (what, mut mon) in streams {
                rep.eval(&format!("{what}: {tag}"));
                let r = (e.ops.from_reader)(&mut mon, off).map(|r| r.1);
                rep.distinct(&format!("{} {what} {tag} {} {}", e.name, mon.reads, mon.interrupted));
                rep.check(same(&r, &val), &format!("{} {what}", e.name), || here(what, &r));
                if r.is_ok() {
                    let p = *pos.get_or_insert(mon.pos);
                    rep.check(mon.pos == p, &format!("{} {what} position", e.name), || here(what, &mon.pos));
                }
            }
            for hostile in [false, true] {
                let mut mon = Mon::new(data.clone());
                if hostile {
                    mon = mon.hostile(Rng::new(rng.u64()));
                }
                rep.eval(&format!("from_reader_with_ctx: {tag}"));
                let r = (e.ops.raw_read)(&mut mon, off).map(|r| r.val);
                rep.check(same(&r, &val), &format!("{} from_reader_with_ctx", e.name), || here("from_reader_with_ctx", &r));
            }
            if off == 0 {
                let t = (e.ops.try_from)(&data);
                rep.eval(&format!("try_from: {tag}"));
                let ok = match (&base, &t) {
                    (_, Err(x)) if fatal(x) => false,
                    (Err(a), Err(b)) => a.class() == b.class(),
                    (Err(_), Ok(_)) => false,
                    (Ok(r), t) => {
                        if e.has("seek") {
                            match t {
                                Ok(v) => *v == r.val,
                                Err(_) => true,
                            }
                        } else if r.rest == (0, 0) {
                            matches!(t, Ok(v) if *v == r.val)
                        } else if r.rest.0 > 1 || r.rest.1 == 0 {
                            matches!(t, Err(Er::Parse))
                        } else {
                            // some bits of the last byte are left
                            match t {
                                Ok(v) => *v == r.val,
                                Err(x) => *x == Er::Parse,
                            }
                        }
                    }
                };
                rep.check(ok, &format!("{} try_from", e.name), || here("try_from", &t));
            }
        }
    });
    Meta {
        level: "exploration",
        rule: "distinct (type, entry point and delivery, outcome, number of stream reads and interruptions)",
        assumptions: &["error classes are compared, not messages"],
    }
}

/// Every strict prefix of what a value needs is Incomplete
pub fn truncation(rep: &mut Report, entries: &[Entry]) -> Meta {
    let n = rep.scale(14, 220);
    par_entries(rep, entries, |rep, e, rng| {
        let d = (e.decl)();
        for _ in 0..n {
            let data = match inputs::valid(d, rng) {
                Some(v) if rng.chance(4, 5) => v.bytes,
                _ => inputs::bytes(e, rng),
            };
            let off = if rng.chance(1, 4) { rng.below(9) } else { 0 };
            let mut data = data;
            if off != 0 {
                data.extend(rng.bytes(3));
            }
            // every cut of short ones
            let cuts: Vec<usize> = if data.len() <= 40 { (0..data.len()).collect() } else { (0..40)
                .map(|i| match i % 3 {
                    // where pieces in which something may be read end, and shortly before all of it
                    0 => (64 * rng.below(data.len() / 64 + 1) + rng.below(5)).min(data.len() - 1),
                    1 => data.len() - 1 - rng.below(data.len().min(12)),
                    _ => rng.below(data.len()),
                })
                .collect() };
            for cut in cuts {
                let part = &data[..cut];
                match model::decode(d, part, off) {
                    Err(ME::Incomplete) => {}
                    _ => {
                        rep.count("cut where the value does not need more");
                        continue;
                    }
                }
                let missing = model::decode(d, &data, off).is_ok();
                rep.distinct(&format!("{} {cut} {off} {missing}", e.name));
                let judge = |rep: &mut Report, what: &str, r: Result<String, Er>| {
                    rep.eval(what);
                    let ok = matches!(&r, Err(Er::Incomplete(n)) if *n > 0);
                    rep.check(ok, &format!("{} {what}", e.name), || format!("{} {what} of {} bits of {} cut at {cut}: {r:?}", e.name, off, hex(part)));
                };
                judge(rep, "from_bytes", (e.ops.from_bytes)(part, off).map(|r| short(&r.val)));
                let mut mon = Mon::new(part.to_vec());
                judge(rep, "from_reader", (e.ops.from_reader)(&mut mon, off).map(|r| short(&r.1)));
                let mut mon = Mon::new(part.to_vec()).hostile(Rng::new(rng.u64()));
                judge(rep, "from_reader interrupted", (e.ops.from_reader)(&mut mon, off).map(|r| short(&r.1)));
                if off == 0 {
                    judge(rep, "try_from", (e.ops.try_from)(part).map(|v| short(&v)));
                    if !e.has("seek") {
                        let mut mon = Mon::new(part.to_vec());
                        mon.seekable = false;
                        judge(rep, "NoSeek", (e.ops.read_noseek)(&mut mon).map(|r| short(&r.val)));
                    }
                }
            }
        }
    });
    Meta {
        level: "fault_enumeration",
        rule: "distinct (type, cut position, start offset, cut of a whole value) for which all entry points had to report Incomplete with a positive need",
        assumptions: &[],
    }
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
];

/// A failing stream is reported as such
pub fn read_faults(rep: &mut Report, entries: &[Entry]) -> Meta {
    let n = rep.scale(10, 150);
    par_entries(rep, entries, |rep, e, rng| {
        let d = (e.decl)();
        for _ in 0..n {
            let mut data = match inputs::valid(d, rng) {
                Some(v) if rng.chance(5, 6) => v.bytes,
                _ => inputs::bytes(e, rng),
            };
            let off = if rng.chance(1, 4) { rng.below(17) } else { 0 };
            if off != 0 || rng.bool() {
                data.extend(rng.bytes(5));
            }
            let chunk = if rng.bool() { 0 } else { 1 };
            let mut mon = Mon::new(data.clone()).chunked(chunk);
            let clean = (e.ops.from_reader)(&mut mon, off);
            if let Err(x) = &clean {
                if fatal(x) {
                    rep.violation(format!("{} read", e.name), format!("{} {}: {x:?}", e.name, hex(&data)));
                    continue;
                }
            }
            let total = mon.ops;
            let ats: Vec<usize> = if total <= 48 { (0..total).collect() } else { (0..48).map(|_| rng.below(total)).collect() };
            for at in ats {
                let kind = *rng.pick(KINDS);
                // for good
                let mut mon = Mon::new(data.clone()).chunked(chunk).failing(at, kind, true);
                let r = (e.ops.from_reader)(&mut mon, off);
                rep.eval("stream broken for good");
                rep.distinct(&format!("{} {at} of {total} {kind:?}", e.name));
                let here = |r: &dyn std::fmt::Debug| format!("{} ({}, {off}) pieces of {chunk}: operation {at} of {total} fails with {kind:?}: {r:?}", e.name, hex(&data));
                rep.check(mon.failed && matches!(&r, Err(Er::Io(k)) if *k == kind), &format!("{} broken read", e.name), || here(&r));
                // once
                let mut mon = Mon::new(data.clone()).chunked(chunk).failing(at, kind, false);
                let r = (e.ops.from_reader)(&mut mon, off);
                rep.eval("stream failed once");
                let ok = match (&r, &clean) {
                    (Err(Er::Io(k)), _) => *k == kind,
                    // the failure was met while looking for the end, and not again
                    (Ok(a), Ok(c)) => e.has("read_all") && a == c,
                    (Err(x), _) => e.has("read_all") && !fatal(x),
                    _ => false,
                };
                rep.check(ok, &format!("{} failed read", e.name), || here(&r));
                // through a NoSeek
                if off == 0 && !e.has("seek") {
                    let mut mon = Mon::new(data.clone()).chunked(chunk).failing(at, kind, true);
                    mon.seekable = false;
                    let r = (e.ops.read_noseek)(&mut mon).map(|r| short(&r.val));
                    rep.eval("unseekable stream broken for good");
                    rep.check(matches!(&r, Err(Er::Io(k)) if *k == kind), &format!("{} broken unseekable read", e.name), || here(&r));
                }
            }
        }
    });
    Meta {
        level: "fault_enumeration",
        rule: "distinct (type, failing stream operation of how many, kind of error): every operation a clean read performs was made to fail",
        assumptions: &["a failure which is met only once, while a read-until-end field looks for the end, may be met again instead of returned"],
    }
}

/// Incomplete, faults and short writes on the writing side
pub fn write_faults(rep: &mut Report, entries: &[Entry]) -> Meta {
    let n = rep.scale(16, 250);
    par_entries(rep, entries, |rep, e, rng| {
        let d = (e.decl)();
        for _ in 0..n {
            let Some(v) = inputs::valid(d, rng) else { continue };
            let chunk = if rng.bool() { 0 } else { 1 };
            let mut mon = Mon::new(vec![]).chunked(chunk);
            let clean = (e.ops.to_writer)(&v.val, &mut mon);
            if let Err(x) = &clean {
                if fatal(x) {
                    rep.violation(format!("{} write", e.name), format!("{} {}: {x:?}", e.name, short(&v.val)));
                }
                continue;
            }
            let whole = mon.data.clone();
            let total = mon.ops;
            let compare = !e.has("unordered") && !e.has("seek");
            let ats: Vec<usize> = if total <= 40 { (0..total).collect() } else { (0..40).map(|_| rng.below(total)).collect() };
            for at in ats {
                let kind = *rng.pick(KINDS);
                for sticky in [true, false] {
                    let mut mon = Mon::new(vec![]).chunked(chunk).failing(at, kind, sticky);
                    let r = (e.ops.to_writer)(&v.val, &mut mon);
                    rep.eval("stream failed");
                    rep.distinct(&format!("{} {at} of {total} {kind:?}", e.name));
                    let here = |r: &dyn std::fmt::Debug| format!("{} of {} pieces of {chunk}: operation {at} of {total} fails with {kind:?} ({sticky}): {r:?}", e.name, short(&v.val));
                    rep.check(matches!(&r, Err(Er::Io(k)) if *k == kind), &format!("{} failed write", e.name), || here(&r));
                    if compare {
                        rep.check(whole.starts_with(&mon.data), &format!("{} written before the failure", e.name), || {
                            format!("{}: {} written, {} expected", here(&r), hex(&mon.data), hex(&whole))
                        });
                    }
                }
            }
            // a full stream
            if !e.has("seek") {
                let caps: Vec<usize> = if whole.len() <= 24 { (0..whole.len()).collect() } else { (0..24).map(|_| rng.below(whole.len())).collect() };
                for cap in caps {
                    let mut mon = Mon::new(vec![]).chunked(chunk).capped(cap);
                    let r = (e.ops.to_writer)(&v.val, &mut mon);
                    rep.eval("stream full");
                    let here = |r: &dyn std::fmt::Debug| format!("{} of {} into {cap} of {} bytes: {r:?}", e.name, short(&v.val), whole.len());
                    rep.check(matches!(r, Err(Er::Io(ErrorKind::WriteZero))), &format!("{} full stream", e.name), || here(&r));
                    if compare {
                        rep.check(mon.data[..] == whole[..mon.data.len()], &format!("{} written before full", e.name), || format!("{}: {} written", here(&r), hex(&mon.data)));
                    }
                    let mut buf = vec![0xAA; cap];
                    let r = (e.ops.to_slice)(&v.val, &mut buf);
                    rep.eval("slice full");
                    rep.check(matches!(r, Err(Er::Io(ErrorKind::WriteZero))), &format!("{} full slice", e.name), || here(&r));
                }
            }
        }
    });
    Meta {
        level: "fault_enumeration",
        rule: "distinct (type, failing stream operation of how many, kind of error): every operation a clean write performs was made to fail, and every shorter destination tried",
        assumptions: &[],
    }
}

/// All ways to write give the same
pub fn write_paths(rep: &mut Report, entries: &[Entry]) -> Meta {
    let n = rep.scale(120, 2000);
    par_entries(rep, entries, |rep, e, rng| {
        let d = (e.decl)();
        for i in 0..n {
            let Some(v) = inputs::gen_value(d, rng) else { continue };
            let v = if i % 4 == 3 {
                match diff::canon(e, &inputs::tweak(&v, rng)) {
                    Some(v) => v,
                    None => continue,
                }
            } else {
                v
            };
            if inputs::long(d, &v) {
                rep.count("not written: too long");
                continue;
            }
            let base = (e.ops.to_bytes)(&v);
            if let Err(x) = &base {
                if fatal(x) {
                    rep.violation(format!("{} write", e.name), format!("{} {}: {x:?}", e.name, short(&v)));
                    continue;
                }
            }
            let tag = match &base {
                Ok(_) => "ok".to_string(),
                Err(x) => x.class().to_string(),
            };
            rep.distinct(&format!("{} {tag} {}", e.name, base.as_ref().map_or(0, Vec::len)));
            let unordered = e.has("unordered");
            let eq = |a: &Result<Vec<u8>, Er>| -> bool {
                match (a, &base) {
                    (Ok(a), Ok(b)) => {
                        if unordered {
                            a.len() == b.len()
                        } else {
                            a == b
                        }
                    }
                    (Err(a), Err(b)) => a.class() == b.class() && !fatal(a),
                    _ => false,
                }
            };
            let show = |r: &Result<Vec<u8>, Er>| match r {
                Ok(b) => hex(b),
                Err(e) => format!("{e:?}"),
            };
            let mut judge = |what: &str, r: Result<Vec<u8>, Er>| {
                rep.eval(&format!("{what}: {tag}"));
                rep.check(eq(&r), &format!("{} {what}", e.name), || format!("{} of {}: {what} gives {}, to_bytes {}", e.name, short(&v), show(&r), show(&base)));
            };
            judge("to_bytes again", (e.ops.to_bytes)(&v));
            judge("TryInto<Vec<u8>>", (e.ops.into_vec)(&v));
            for (what, mon) in [
                ("to_writer", Mon::new(vec![])),
                ("to_writer byte by byte", Mon::new(vec![]).chunked(1)),
                ("to_writer interrupted", Mon::new(vec![]).hostile(Rng::new(rng.u64()))),
            ] {
                let mut mon = mon;
                let r = (e.ops.to_writer)(&v, &mut mon);
                let bits = r.clone().unwrap_or(0);
                judge(what, r.map(|_| mon.data.clone()));
                if let (Ok(b), false) = (&base, e.has("seek")) {
                    if bits != b.len() * 8 {
                        judge(&format!("{what} bits_written {bits}"), Ok(vec![]));
                    }
                }
            }
            if !e.has("seek") {
                let mut mon = Mon::new(vec![]);
                mon.seekable = false;
                let r = (e.ops.write_noseek)(&v, &mut mon);
                judge("NoSeek", r.map(|_| mon.data.clone()));
                let len = base.as_ref().map_or(1 << 14, Vec::len);
                for extra in [0, 1, 9] {
                    let mut buf = vec![0xA5; len + extra];
                    let r = (e.ops.to_slice)(&v, &mut buf);
                    let r = match r {
                        Ok(n) if n == len && buf[n..].iter().all(|b| *b == 0xA5) => Ok(buf[..n].to_vec()),
                        Ok(n) => Ok(vec![n as u8; len + 1]),
                        Err(x) => Err(x),
                    };
                    judge("to_slice", r);
                }
                // bits are the bytes without the padding of the last one
                for (what, bits) in [("to_bits", (e.ops.to_bits)(&v)), ("TryInto<BitVec>", (e.ops.into_bits)(&v))] {
                    match bits {
                        Ok(b) => {
                            let lsb = e.has("order");
                            let n = b.len();
                            let mut bytes = vec![];
                            for c in b.chunks(8) {
                                let mut x = 0u8;
                                for (i, v) in c.iter().enumerate() {
                                    x |= u8::from(*v) << (7 - i);
                                }
                                bytes.push(x);
                            }
                            if lsb && n % 8 != 0 {
                                // how the last bits are shown depends on their order
                                bytes.pop();
                                let r = base.clone().map(|b| if bytes.len() + 1 == b.len() && (unordered || b.starts_with(&bytes)) { b } else { vec![0xEE; b.len() + 1] });
                                judge(what, r);
                            } else {
                                judge(what, Ok(bytes));
                            }
                        }
                        Err(x) => judge(what, Err(x)),
                    }
                }
            }
        }
    });
    Meta {
        level: "exploration",
        rule: "distinct (type, outcome, length) of values written through every entry point and destination",
        assumptions: &["types with unordered collections are compared by length"],
    }
}

/// An unseekable stream is as good as a seekable one, if nothing has to be sought
pub fn noseek(rep: &mut Report, entries: &[Entry]) -> Meta {
    super::lowlevel::noseek_seq(rep, rep.scale(300, 6000));
    let n = rep.scale(120, 2000);
    par_entries(rep, entries, |rep, e, rng| {
        let d = (e.decl)();
        for _ in 0..n {
            let data = inputs::bytes(e, rng);
            let mut a = Mon::new(data.clone());
            let ra = (e.ops.raw_read)(&mut a, 0);
            let mut b = Mon::new(data.clone()).hostile(Rng::new(rng.u64()));
            b.seekable = false;
            let rb = (e.ops.read_noseek)(&mut b);
            if e.has("seek") {
                rep.eval("type which seeks");
                let ok = match (&ra, &rb) {
                    (_, Err(x)) if fatal(x) => false,
                    (Ok(a), Ok(b)) => a == b,
                    (_, Err(Er::Io(_))) => true,
                    (Err(a), Err(b)) => a.class() == b.class(),
                    _ => false,
                };
                rep.check(ok && b.seeks == 0, &format!("{} NoSeek", e.name), || format!("{} {}: {rb:?}, seekable {ra:?}", e.name, hex(&data)));
                rep.distinct(&format!("{} {}", e.name, rb.is_ok()));
                continue;
            }
            rep.eval(if ra.is_ok() { "read ok" } else { "read refused" });
            rep.distinct(&format!("{} {} {}", e.name, data.len(), ra.is_ok()));
            let ok = match (&ra, &rb) {
                (_, Err(x)) if fatal(x) => false,
                (Ok(x), Ok(y)) => x == y && a.pos == b.pos,
                (Err(x), Err(y)) => x.class() == y.class(),
                _ => false,
            };
            rep.check(ok, &format!("{} NoSeek", e.name), || format!("{} {}: {rb:?} at {}, seekable {ra:?} at {}", e.name, hex(&data), b.pos, a.pos));
            rep.check(a.seeks == 0 && b.seeks == 0, &format!("{} seeks", e.name), || format!("{} {}: {} seeks, {} unseekable", e.name, hex(&data), a.seeks, b.seeks));
            if let Some(v) = inputs::gen_value(d, rng) {
                if e.has("unordered") {
                    continue;
                }
                let mut a = Mon::new(vec![]);
                let ra = (e.ops.to_writer)(&v, &mut a);
                let mut b = Mon::new(vec![]).hostile(Rng::new(rng.u64()));
                b.seekable = false;
                let rb = (e.ops.write_noseek)(&v, &mut b);
                rep.eval(if ra.is_ok() { "write ok" } else { "write refused" });
                let ok = match (&ra, &rb) {
                    (_, Err(x)) if fatal(x) => false,
                    (Ok(x), Ok(y)) => x == y && a.data == b.data,
                    (Err(x), Err(y)) => x.class() == y.class(),
                    _ => false,
                };
                rep.check(ok && a.seeks == 0, &format!("{} NoSeek write", e.name), || format!("{} {}: {rb:?} {}, seekable {ra:?} {}", e.name, short(&v), hex(&b.data), hex(&a.data)));
            }
        }
    });
    Meta {
        level: "exploration",
        rule: "distinct (type, input length, outcome) read from a stream whose seek operation fails, next to a seekable one",
        assumptions: &[],
    }
}
