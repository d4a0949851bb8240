//! Attributes of fields and types: the real code against the model on the types which use them
use super::{diff_all, par, par_entries, Meta};
use crate::diff;
use crate::inputs;
use crate::props::scalar::{end, model_read, ord, real_read, Form, Lead};
use deku::ctx::{BitSize, ByteSize, Limit, Order};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use vcore::model::{self, Bop, Expr, LimV, Ty, E, O};
use vcore::ops::{Entry, Er, Raw};
use vcore::report::{hex, Report};
use vcore::rng::Rng;

/// Every change of one bit, and of some bytes, in valid encodings
fn sweep(rep: &mut Report, entries: &[Entry], want: &(dyn Fn(&Entry) -> bool + Sync), n: (usize, usize)) {
    let chosen: Vec<Entry> = entries.iter().filter(|e| want(e)).cloned().collect();
    let n = rep.scale(n.0, n.1);
    par_entries(rep, &chosen, |rep, e, rng| {
        for _ in 0..n {
            let Some(v) = inputs::valid((e.decl)(), rng) else { continue };
            let mut b = v.bytes;
            b.truncate(96);
            let len = b.len();
            let more = rng.below(6);
            b.extend(rng.bytes(more));
            if let Some(m) = diff::decode(rep, e, &b, 0) {
                rep.distinct(&format!("{} sweep {} {}", e.name, hex(&b), diff::outcome(&m)));
            }
            for bit in 0..len * 8 {
                b[bit / 8] ^= 0x80 >> (bit % 8);
                if let Some(m) = diff::decode(rep, e, &b, 0) {
                    rep.distinct(&format!("{} flip {bit} {}", e.name, diff::outcome(&m)));
                    if let Ok(m) = m {
                        if rng.chance(1, 4) {
                            diff::encode(rep, e, &m.val);
                        }
                    }
                }
                b[bit / 8] ^= 0x80 >> (bit % 8);
            }
            for i in 0..len {
                let old = b[i];
                for x in [0, 1, 0x7f, 0x80, 0xff] {
                    b[i] = x;
                    diff::decode(rep, e, &b, 0);
                }
                b[i] = old;
            }
            // the whole, cut anywhere
            for cut in 0..=len.min(24) {
                diff::decode(rep, e, &b[..cut], 0);
            }
        }
    });
}

const TOGETHER: &str = "distinct (type, changed bit or shape of input, outcome) among the reads and writes which the reference model judged";

pub fn tagged(rep: &mut Report, entries: &[Entry], want: &(dyn Fn(&Entry) -> bool + Sync)) -> Meta {
    diff_all(rep, entries, want, (250, 4000));
    sweep(rep, entries, want, (3, 30));
    Meta { level: "exploration", rule: TOGETHER, assumptions: &[] }
}

type ReadC = fn(&[u8], Lead, Form, &LimV) -> Option<Result<Raw, Er>>;

struct Coll {
    name: &'static str,
    ty: Ty,
    read: ReadC,
}

/// element, container, the model's type of the element, the predicate of `until`
macro_rules! coll {
    ($c:ty, $t:ty, $ty:expr, $p:expr, $($form:ident($f:ident) => $ctx:expr),*) => {{
        fn read(d: &[u8], l: Lead, f: Form, lim: &LimV) -> Option<Result<Raw, Er>> {
            macro_rules! go {
                ($x:expr) => {
                    match lim {
                        LimV::Count(n) => real_read::<$c, _>(d, l, (Limit::<$t, fn(&$t) -> bool>::new_count(*n), $x)),
                        LimV::Bits(n) if n % 16 == 0 && n % 24 != 0 => {
                            real_read::<$c, _>(d, l, (Limit::<$t, fn(&$t) -> bool>::new_byte_size(ByteSize(n / 8)), $x))
                        }
                        LimV::Bits(n) => real_read::<$c, _>(d, l, (Limit::<$t, fn(&$t) -> bool>::new_bit_size(BitSize(*n)), $x)),
                        LimV::Until(_) => real_read::<$c, _>(d, l, (Limit::<$t, _>::new_until($p), $x)),
                        LimV::All => real_read::<$c, _>(d, l, (Limit::<$t, fn(&$t) -> bool>::end(), $x)),
                    }
                };
            }
            Some(match f {
                Form::None => go!(()),
                $(Form::$form($f) => go!($ctx),)*
                _ => return None,
            })
        }
        Coll { name: stringify!($c), ty: $ty, read }
    }};
}

type Map8 = HashMap<u8, u16>;

fn int(w: usize, s: bool) -> Ty {
    Ty::Int { w, s }
}

fn colls() -> Vec<Coll> {
    let v = |t: Ty| Ty::Vec(Box::new(t));
    let u8_ = || int(8, false);
    vec![
        coll!(Vec<u8>, u8, v(u8_()), |x: &u8| *x < 64, E(e) => end(e), O(o) => ord(o), Bits(n) => BitSize(n)),
        coll!(Box<[u8]>, u8, v(u8_()), |x: &u8| *x < 64, E(e) => end(e), O(o) => ord(o), Bits(n) => BitSize(n)),
        coll!(Arc<[u8]>, u8, v(u8_()), |x: &u8| *x < 64, E(e) => end(e), O(o) => ord(o), Bits(n) => BitSize(n)),
        coll!(HashSet<u8>, u8, Ty::Set(Box::new(u8_())), |x: &u8| *x < 64, E(e) => end(e), O(o) => ord(o), Bits(n) => BitSize(n)),
        coll!(Vec<i8>, i8, v(int(8, true)), |x: &i8| *x < 64, E(e) => end(e), O(o) => ord(o), Bits(n) => BitSize(n)),
        coll!(Vec<u16>, u16, v(int(16, false)), |x: &u16| *x < 64, E(e) => end(e), O(o) => ord(o), Bits(n) => BitSize(n)),
        coll!(Box<[u16]>, u16, v(int(16, false)), |x: &u16| *x < 64, E(e) => end(e), O(o) => ord(o), Bits(n) => BitSize(n)),
        coll!(HashSet<u16>, u16, Ty::Set(Box::new(int(16, false))), |x: &u16| *x < 64, E(e) => end(e), O(o) => ord(o), Bits(n) => BitSize(n)),
        coll!(Vec<u32>, u32, v(int(32, false)), |x: &u32| *x < 64, E(e) => end(e), O(o) => ord(o), Bits(n) => BitSize(n)),
        coll!(Vec<i64>, i64, v(int(64, true)), |x: &i64| *x < 64, E(e) => end(e), O(o) => ord(o), Bits(n) => BitSize(n)),
        coll!(Vec<u128>, u128, v(int(128, false)), |x: &u128| (*x as i128) < 64, E(e) => end(e), O(o) => ord(o), Bits(n) => BitSize(n)),
        coll!(Vec<bool>, bool, v(Ty::Bool), |x: &bool| *x, Bits(n) => BitSize(n)),
        coll!(Vec<[u8; 3]>, [u8; 3], v(Ty::Arr(Box::new(u8_()), 3)), |x: &[u8; 3]| x[0] < 64, E(e) => end(e), O(o) => ord(o), Bits(n) => BitSize(n)),
        coll!(Vec<[u16; 2]>, [u16; 2], v(Ty::Arr(Box::new(int(16, false)), 2)), |x: &[u16; 2]| x[0] < 64, E(e) => end(e), O(o) => ord(o), Bits(n) => BitSize(n)),
        coll!(Vec<(u8, u16)>, (u8, u16), v(Ty::Tup(vec![u8_(), int(16, false)])), |x: &(u8, u16)| x.0 < 64, E(e) => end(e), O(o) => ord(o)),
        coll!(Vec<Box<u16>>, Box<u16>, v(int(16, false)), |x: &Box<u16>| **x < 64, E(e) => end(e), O(o) => ord(o), Bits(n) => BitSize(n)),
        coll!(Vec<Option<u16>>, Option<u16>, v(Ty::Opt(Box::new(int(16, false)))), |x: &Option<u16>| x.unwrap_or(0) < 64, E(e) => end(e), O(o) => ord(o), Bits(n) => BitSize(n)),
        coll!(Map8, (u8, u16), Ty::Map(Box::new(u8_()), Box::new(int(16, false))), |x: &(u8, u16)| x.0 < 64, E(e) => end(e), O(o) => ord(o)),
    ]
}

/// the predicates above, as the model has them
fn predicate(c: &Coll) -> Expr {
    let lt = |x| Expr::B(Bop::Lt, Box::new(x), Box::new(Expr::L(64)));
    match &c.ty {
        Ty::Vec(t) | Ty::Set(t) => match &**t {
            Ty::Bool => Expr::Elem,
            Ty::Arr(..) | Ty::Tup(_) => lt(Expr::ElemAt(0)),
            _ => lt(Expr::Elem),
        },
        _ => lt(Expr::ElemAt(0)),
    }
}

pub fn limits(rep: &mut Report, entries: &[Entry]) -> Meta {
    let tags = ["count", "bits_read", "bytes_read", "until", "read_all"];
    tagged(rep, entries, &|e| tags.iter().any(|t| e.has(t)));
    let n = rep.scale(2500, 60000);
    par(rep, &colls(), |c| c.name.to_string(), |rep, c, rng| {
        let pred = predicate(c);
        for _ in 0..n {
            one_coll(rep, c, &pred, rng);
        }
    });
    Meta {
        level: "exploration",
        rule: "distinct (type, outcome, shape of input) and (container, context, limit, outcome, alignment) which the reference model judged",
        assumptions: &["limits with elements of no width are not judged"],
    }
}

fn one_coll(rep: &mut Report, c: &Coll, pred: &Expr, rng: &mut Rng) {
    let len = match rng.below(20) {
        0 => 0,
        1 => rng.range(60, 70),
        2 if rng.chance(1, 20) => rng.range(65_000, 140_000),
        2 => rng.range(4090, 4200),
        3 => rng.range(64, 300),
        _ => rng.below(40),
    };
    let mut data = rng.bytes(len);
    // mostly large numbers, so that `until` takes a while
    if rng.chance(1, 2) {
        for b in &mut data {
            if rng.chance(9, 10) {
                *b |= 0x40;
            }
        }
    }
    let form = match rng.below(6) {
        0 | 1 => Form::None,
        2 => Form::E(E::Le),
        3 => Form::E(E::Be),
        4 => Form::O(if rng.chance(1, 2) { O::Lsb } else { O::Msb }),
        _ => Form::Bits(rng.range(1, 16)),
    };
    let lead = match rng.below(3) {
        0 | 1 => Lead { bits: 0, order: Order::Msb0 },
        _ => Lead { bits: rng.below(18), order: if form == Form::O(O::Lsb) { Order::Lsb0 } else { Order::Msb0 } },
    };
    let lim = match rng.below(5) {
        0 => LimV::Count(match rng.below(8) {
            0 => usize::MAX - rng.below(3),
            1 => 1 << rng.range(8, 63),
            2 => len,
            3 => len / 2,
            4 => len.saturating_sub(lead.bits.div_ceil(8)),
            _ => rng.below(24),
        }),
        1 | 2 => LimV::Bits(match rng.below(6) {
            0 => len * 8,
            1 => (len * 8).saturating_sub(lead.bits),
            2 => rng.below(len * 8 + 20),
            3 => usize::MAX - rng.below(70),
            4 => 8 * rng.below(len + 2),
            _ => 48 * rng.below(12),
        }),
        3 => LimV::Until(pred),
        _ => LimV::All,
    };
    let Some(r) = (c.read)(&data, lead, form, &lim) else { return };
    let what = match &lim {
        LimV::Count(n) => format!("count {n}"),
        LimV::Bits(n) => format!("bits {n}"),
        LimV::Until(_) => "until".into(),
        LimV::All => "all".into(),
    };
    let m = model_read(&c.ty, &form.args(), Some(&lim), &data, lead);
    if let Err(model::ME::Undef(why)) = m {
        rep.count(&format!("not judged: {why}"));
        return;
    }
    let kind = what.split(' ').next().unwrap_or("");
    rep.eval(&format!("collection by {kind}: {}", if m.is_ok() { "ok" } else { "refused" }));
    rep.distinct(&format!("{} {form:?} {what} {lead:?} {}", c.name, m.is_ok()));
    let ok = match (&m, &r) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => diff::class(a) == b.class(),
        _ => false,
    };
    rep.check(ok, &format!("{} by {kind}", c.name), || {
        format!("{} with {form:?}, {what}, after {lead:?}, from {}: {:.600}, expected {:.600}", c.name, hex(&data), format!("{r:?}"), format!("{m:?}"))
    });
}
