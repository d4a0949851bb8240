//! Differential monitors: the real code against the reference model
use vcore::model::{self, ME};
use vcore::ops::{guard, Entry, Er};
use vcore::report::{hex, Report};
use vcore::val::Val;

pub fn class(m: &ME) -> &'static str {
    match m {
        ME::Incomplete => "Incomplete",
        ME::Parse => "Parse",
        ME::Assertion => "Assertion",
        ME::InvalidParam => "InvalidParam",
        ME::Id => "IdVariantNotFound",
        ME::Io => "Io",
        ME::Undef(_) => "Undef",
    }
}

/// A value as the type can hold it; None if it cannot
pub fn canon(e: &Entry, v: &Val) -> Option<Val> {
    guard(|| Ok((e.ops.ident)(v))).ok()
}

pub fn short(v: &Val) -> String {
    let mut s = format!("{v:?}");
    if s.len() > 300 {
        s.truncate((0..=300).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0));
        s.push_str("...");
    }
    s
}

pub fn fatal(e: &Er) -> bool {
    matches!(e, Er::Panic(_) | Er::Endless)
}

/// How a read ended, for coverage
pub fn outcome(r: &Result<model::Decoded, ME>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(m) => class(m).into(),
    }
}

/// `from_bytes` against the model. Returns what the model says, if it judges.
pub fn decode(rep: &mut Report, e: &Entry, data: &[u8], off: usize) -> Option<Result<model::Decoded, ME>> {
    let m = model::decode((e.decl)(), data, off);
    if let Err(ME::Undef(why)) = &m {
        rep.count(&format!("not judged: {why}"));
        return None;
    }
    rep.eval(&format!("read {}", outcome(&m)));
    let r = (e.ops.from_bytes)(data, off);
    let here = || format!("{} from_bytes({}, {off})", e.name, hex(data));
    match (&m, &r) {
        (_, Err(x)) if fatal(x) => {
            rep.violation(format!("{} read", e.name), format!("{}: {x:?}", here()));
        }
        (Ok(m), Ok(r)) => {
            rep.check(m.val == r.val, &format!("{} read", e.name), || {
                format!("{}: read {}, the format says {}", here(), short(&r.val), short(&m.val))
            });
        }
        (Err(a), Err(b)) => {
            rep.check(class(a) == b.class(), &format!("{} read error", e.name), || {
                    format!("{}: {b:?}, expected {}", here(), class(a))
                });
        }
        (Ok(m), Err(b)) => rep.violation(format!("{} read", e.name), format!("{}: {b:?}, the format says {}", here(), short(&m.val))),
        (Err(a), Ok(r)) => rep.violation(format!("{} read", e.name), format!("{}: read {}, expected {}", here(), short(&r.val), class(a))),
    }
    Some(m)
}

pub enum Enc {
    Bytes(Vec<u8>),
    Refused(ME),
}

pub fn model_encode(rep: &mut Report, e: &Entry, v: &Val) -> Option<Enc> {
    match model::encode((e.decl)(), v) {
        Err(ME::Undef(why)) => {
            rep.count(&format!("not judged: {why}"));
            None
        }
        Err(x) => Some(Enc::Refused(x)),
        Ok(w) if w.mixed => {
            rep.count("not judged: both bit orders in one byte");
            None
        }
        Ok(w) => {
            let mut f = w;
            f.finalize();
            Some(Enc::Bytes(f.out))
        }
    }
}

/// `to_bytes` against the model
pub fn encode(rep: &mut Report, e: &Entry, v: &Val) -> Option<Enc> {
    let m = model_encode(rep, e, v)?;
    let r = (e.ops.to_bytes)(v);
    let here = || format!("{} to_bytes of {}", e.name, short(v));
    let key = format!("{} write", e.name);
    match (&m, &r) {
        (_, Err(x)) if fatal(x) => {
            rep.eval("write panic");
            rep.violation(key, format!("{}: {x:?}", here()));
        }
        (Enc::Bytes(m), Ok(r)) => {
            rep.eval("write ok");
            let same = if e.has("unordered") {
                let (mut a, mut b) = (m.clone(), r.clone());
                a.sort_unstable();
                b.sort_unstable();
                a.len() == b.len() && (a == b || e.has("bits") || e.has("seek"))
            } else {
                m == r
            };
            rep.check(same, &key, || format!("{}: wrote {}, the format says {}", here(), hex(r), hex(m)));
        }
        (Enc::Refused(a), Err(b)) => {
            rep.eval(&format!("write {}", class(a)));
            {
                rep.check(class(a) == b.class(), &format!("{} write error", e.name), || format!("{}: {b:?}, expected {}", here(), class(a)));
            }
        }
        (Enc::Bytes(m), Err(b)) => {
            rep.eval("write ok");
            rep.violation(key, format!("{}: {b:?}, the format says {}", here(), hex(m)));
        }
        (Enc::Refused(a), Ok(r)) => {
            rep.eval(&format!("write {}", class(a)));
            rep.violation(key, format!("{}: wrote {}, expected {}", here(), hex(r), class(a)));
        }
    }
    Some(m)
}
