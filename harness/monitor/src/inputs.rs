//! Workloads: values and byte strings for the types of the zoo
use vcore::model::{self, Decl};
use vcore::ops::Entry;
use vcore::rng::Rng;
use vcore::val::Val;

#[derive(Clone, Debug)]
pub struct Valid {
    pub val: Val,
    /// finalized
    pub bytes: Vec<u8>,
}

/// A value of the type, and the bytes the model writes for it
pub fn valid(d: &Decl, rng: &mut Rng) -> Option<Valid> {
    let val = model::generate(d, rng)?;
    let wr = model::encode(d, &val).ok()?;
    let mut f = wr;
    f.finalize();
    Some(Valid { val, bytes: f.out.clone() })
}

pub fn gen_value(d: &Decl, rng: &mut Rng) -> Option<Val> {
    model::generate(d, rng)
}

/// Bytes to read a type from: valid ones, valid ones followed by others, changed, cut or random ones
pub fn bytes(e: &Entry, rng: &mut Rng) -> Vec<u8> {
    let d = (e.decl)();
    let mut b = match valid(d, rng) {
        Some(v) if rng.chance(5, 6) => v.bytes,
        _ => {
            let n = rng.below(40);
            return rng.bytes(n);
        }
    };
    match rng.below(8) {
        0 | 1 => {}
        2 => {
            let n = rng.below(12);
            b.extend(rng.bytes(n));
        }
        3 => {
            let n = rng.below(b.len() + 1);
            b.truncate(n);
        }
        4 => {
            for _ in 0..rng.range(1, 3) {
                if !b.is_empty() {
                    let i = rng.below(b.len());
                    b[i] ^= 1 << rng.below(8);
                }
            }
            let n = rng.below(12);
            b.extend(rng.bytes(n));
        }
        5 => {
            if !b.is_empty() {
                let i = rng.below(b.len());
                b[i] = *rng.pick(&[0, 1, 0x7f, 0x80, 0xff, 2, 3]);
            }
            let n = rng.below(24);
            b.extend(rng.bytes(n));
        }
        6 => {
            let n = rng.below(8);
            let mut x = rng.bytes(n);
            x.extend(b);
            b = x;
        }
        _ => {
            let n = rng.range(1, 8);
            b.extend(rng.bytes(n));
        }
    }
    b
}

/// Values near a value: integers changed, lists grown or cut
pub fn tweak(v: &Val, rng: &mut Rng) -> Val {
    match v {
        Val::N(n) => {
            if rng.chance(1, 3) {
                Val::N(match rng.below(7) {
                    0 => n ^ 1 << rng.below(16),
                    1 => n.wrapping_add(1),
                    2 => n.wrapping_sub(1),
                    3 => !n,
                    4 => n ^ 1 << rng.below(127),
                    5 => 0,
                    _ => -1,
                })
            } else {
                v.clone()
            }
        }
        Val::List(l) => {
            let mut l: Vec<Val> = l.iter().map(|v| tweak(v, rng)).collect();
            if !l.is_empty() && rng.chance(1, 4) {
                let x = l[0].clone();
                for _ in 0..rng.below(4) {
                    l.push(x.clone());
                }
            }
            Val::List(l)
        }
        Val::Rec(l) => Val::Rec(l.iter().map(|v| tweak(v, rng)).collect()),
        Val::Var(i, l) => Val::Var(*i, l.iter().map(|v| tweak(v, rng)).collect()),
        Val::Opt(Some(v)) => {
            if rng.chance(1, 8) {
                Val::Opt(None)
            } else {
                Val::Opt(Some(Box::new(tweak(v, rng))))
            }
        }
        v => v.clone(),
    }
}

/// A value whose padding or seek would fill the memory with zeros
pub fn long(d: &Decl, v: &Val) -> bool {
    matches!(model::encode(d, v), Err(model::ME::Undef("long padding" | "seek far away")))
}
