//! Single values with every context they take, at every alignment, against the model
use super::{par, Meta};
use crate::diff::{class, fatal};
use deku::bitvec::{BitVec, Msb0};
use deku::ctx::{BitSize, ByteSize, Endian, Order};
use deku::prelude::*;
use vcore::model::{self, Args, LimV, Rd, Ty, Wr, E, ME, O};
use vcore::mon::Mon;
use vcore::ops::{guard, Er, Raw};
use vcore::report::{hex, Report};
use vcore::rng::Rng;
use vcore::val::{Conv, Val};

/// What was read or written before, in which order
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Lead {
    pub bits: usize,
    pub order: Order,
}

pub fn ord(o: O) -> Order {
    match o {
        O::Msb => Order::Msb0,
        O::Lsb => Order::Lsb0,
    }
}
pub fn mord(o: Order) -> O {
    match o {
        Order::Msb0 => O::Msb,
        Order::Lsb0 => O::Lsb,
    }
}
pub fn end(e: E) -> Endian {
    match e {
        E::Le => Endian::Little,
        E::Be => Endian::Big,
    }
}

pub fn real_read<T, C>(data: &[u8], lead: Lead, ctx: C) -> Result<Raw, Er>
where
    T: for<'a> DekuReader<'a, C> + Conv,
{
    guard(|| {
        let mut m = Mon::new(data.to_vec());
        let mut r = Reader::new(&mut m);
        let mut left = lead.bits;
        while left > 0 {
            let n = left.min(8);
            r.read_bits(n, lead.order)?;
            left -= n;
        }
        let v = T::from_reader_with_ctx(&mut r, ctx)?;
        Ok(Raw { val: v.tv(), bits_read: r.bits_read, rest: r.rest() })
    })
}

/// bytes, and how many bits the writer counted before the end was padded
pub fn real_write<T, C>(v: &T, before: &[bool], order: Order, ctx: C) -> Result<(Vec<u8>, usize), Er>
where
    T: DekuWriter<C>,
{
    let mut m = Mon::new(vec![]);
    let bits = guard(|| {
        let mut w = Writer::new(&mut m);
        for c in before.chunks(8) {
            let mut b: BitVec<u8, Msb0> = c.iter().copied().collect();
            if order == Order::Lsb0 {
                b.reverse();
            }
            w.write_bits_order(&b, order)?;
        }
        v.to_writer(&mut w, ctx)?;
        w.finalize()?;
        Ok(w.bits_written)
    })?;
    Ok((m.data, bits))
}

pub fn model_read(ty: &Ty, a: &Args, lim: Option<&LimV>, data: &[u8], lead: Lead) -> Result<Raw, ME> {
    let mut rd = Rd::new(data);
    rd.take(lead.bits, mord(lead.order))?;
    let val = model::read_ty(ty, a, lim, &mut rd)?;
    Ok(Raw { val, bits_read: rd.bits_read, rest: rd.rest_window() })
}

pub fn model_write(ty: &Ty, v: &Val, a: &Args, before: &[bool], order: Order) -> Result<Option<Vec<u8>>, ME> {
    let mut wr = Wr::default();
    wr.push(before, mord(order));
    model::write_ty(ty, v, a, &mut wr)?;
    wr.finalize();
    Ok((!wr.mixed).then_some(wr.out))
}

/// The context which is given
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    None,
    E(E),
    O(O),
    Bits(usize),
    Bytes(usize),
    EO(E, O),
    EBits(E, usize),
    EBytes(E, usize),
    BitsO(usize, O),
    EBitsO(E, usize, O),
    EBytesO(E, usize, O),
}

impl Form {
    pub fn args(self) -> Args {
        let mut a = Args::default();
        match self {
            Form::None => {}
            Form::E(e) => a.e = Some(e),
            Form::O(o) => a.o = Some(o),
            Form::Bits(n) => a.bits = Some(n),
            Form::Bytes(n) => a.bytes = Some(n),
            Form::EO(e, o) => (a.e, a.o) = (Some(e), Some(o)),
            Form::EBits(e, n) => (a.e, a.bits) = (Some(e), Some(n)),
            Form::EBytes(e, n) => (a.e, a.bytes) = (Some(e), Some(n)),
            Form::BitsO(n, o) => (a.bits, a.o) = (Some(n), Some(o)),
            Form::EBitsO(e, n, o) => (a.e, a.bits, a.o) = (Some(e), Some(n), Some(o)),
            Form::EBytesO(e, n, o) => (a.e, a.bytes, a.o) = (Some(e), Some(n), Some(o)),
        }
        a
    }
}

pub type Read = fn(&[u8], Lead, Form) -> Option<Result<Raw, Er>>;
pub type Write = fn(&Val, &[bool], Order, Form) -> Option<Result<(Vec<u8>, usize), Er>>;

pub struct Scalar {
    pub name: &'static str,
    pub ty: Ty,
    pub w: usize,
    pub read: Read,
    pub write: Write,
}

macro_rules! full {
    ($t:ty, $ty:expr) => {{
        fn read(d: &[u8], l: Lead, f: Form) -> Option<Result<Raw, Er>> {
            Some(match f {
                Form::None => real_read::<$t, _>(d, l, ()),
                Form::E(e) => real_read::<$t, _>(d, l, end(e)),
                Form::O(o) => real_read::<$t, _>(d, l, ord(o)),
                Form::Bits(n) => real_read::<$t, _>(d, l, BitSize(n)),
                Form::Bytes(n) => real_read::<$t, _>(d, l, ByteSize(n)),
                Form::EO(e, o) => real_read::<$t, _>(d, l, (end(e), ord(o))),
                Form::EBits(e, n) => real_read::<$t, _>(d, l, (end(e), BitSize(n))),
                Form::EBytes(e, n) => real_read::<$t, _>(d, l, (end(e), ByteSize(n))),
                Form::BitsO(n, o) => real_read::<$t, _>(d, l, (BitSize(n), ord(o))),
                Form::EBitsO(e, n, o) => real_read::<$t, _>(d, l, (end(e), BitSize(n), ord(o))),
                Form::EBytesO(e, n, o) => real_read::<$t, _>(d, l, (end(e), ByteSize(n), ord(o))),
            })
        }
        fn write(v: &Val, b: &[bool], p: Order, f: Form) -> Option<Result<(Vec<u8>, usize), Er>> {
            let v = <$t>::fv(v);
            Some(match f {
                Form::None => real_write(&v, b, p, ()),
                Form::E(e) => real_write(&v, b, p, end(e)),
                Form::O(o) => real_write(&v, b, p, ord(o)),
                Form::Bits(n) => real_write(&v, b, p, BitSize(n)),
                Form::Bytes(n) => real_write(&v, b, p, ByteSize(n)),
                Form::EO(e, o) => real_write(&v, b, p, (end(e), ord(o))),
                Form::EBits(e, n) => real_write(&v, b, p, (end(e), BitSize(n))),
                Form::EBytes(e, n) => real_write(&v, b, p, (end(e), ByteSize(n))),
                Form::BitsO(n, o) => real_write(&v, b, p, (BitSize(n), ord(o))),
                Form::EBitsO(e, n, o) => real_write(&v, b, p, (end(e), BitSize(n), ord(o))),
                Form::EBytesO(e, n, o) => real_write(&v, b, p, (end(e), ByteSize(n), ord(o))),
            })
        }
        Scalar { name: stringify!($t), ty: $ty, w: 8 * std::mem::size_of::<$t>(), read, write }
    }};
}
macro_rules! nonzero {
    ($t:ty, $ty:expr) => {{
        fn read(d: &[u8], l: Lead, f: Form) -> Option<Result<Raw, Er>> {
            Some(match f {
                Form::None => real_read::<$t, _>(d, l, ()),
                Form::E(e) => real_read::<$t, _>(d, l, end(e)),
                Form::EBits(e, n) => real_read::<$t, _>(d, l, (end(e), BitSize(n))),
                Form::EBytes(e, n) => real_read::<$t, _>(d, l, (end(e), ByteSize(n))),
                Form::EBitsO(e, n, o) => real_read::<$t, _>(d, l, (end(e), BitSize(n), ord(o))),
                Form::EBytesO(e, n, o) => real_read::<$t, _>(d, l, (end(e), ByteSize(n), ord(o))),
                _ => return None,
            })
        }
        fn write(v: &Val, b: &[bool], p: Order, f: Form) -> Option<Result<(Vec<u8>, usize), Er>> {
            if v.n() as u128 & (u128::MAX >> (128 - 8 * std::mem::size_of::<$t>())) == 0 {
                return None;
            }
            let v = <$t>::fv(v);
            Some(match f {
                Form::None => real_write(&v, b, p, ()),
                Form::E(e) => real_write(&v, b, p, end(e)),
                Form::EBits(e, n) => real_write(&v, b, p, (end(e), BitSize(n))),
                Form::EBytes(e, n) => real_write(&v, b, p, (end(e), ByteSize(n))),
                Form::EBitsO(e, n, o) => real_write(&v, b, p, (end(e), BitSize(n), ord(o))),
                Form::EBytesO(e, n, o) => real_write(&v, b, p, (end(e), ByteSize(n), ord(o))),
                _ => return None,
            })
        }
        Scalar { name: stringify!($t), ty: $ty, w: 8 * std::mem::size_of::<$t>(), read, write }
    }};
}

pub fn scalars() -> Vec<Scalar> {
    use std::num::*;
    let u = |w| Ty::Int { w, s: false };
    let i = |w| Ty::Int { w, s: true };
    let nu = |w| Ty::NonZero { w, s: false };
    let ni = |w| Ty::NonZero { w, s: true };
    vec![
        full!(u8, u(8)),
        full!(u16, u(16)),
        full!(u32, u(32)),
        full!(u64, u(64)),
        full!(u128, u(128)),
        full!(usize, u(usize::BITS as usize)),
        full!(i8, i(8)),
        full!(i16, i(16)),
        full!(i32, i(32)),
        full!(i64, i(64)),
        full!(i128, i(128)),
        full!(isize, i(isize::BITS as usize)),
        full!(f32, Ty::Float { w: 32 }),
        full!(f64, Ty::Float { w: 64 }),
        full!(bool, Ty::Bool),
        nonzero!(NonZeroU8, nu(8)),
        nonzero!(NonZeroU16, nu(16)),
        nonzero!(NonZeroU32, nu(32)),
        nonzero!(NonZeroU64, nu(64)),
        nonzero!(NonZeroU128, nu(128)),
        nonzero!(NonZeroUsize, nu(usize::BITS as usize)),
        nonzero!(NonZeroI8, ni(8)),
        nonzero!(NonZeroI16, ni(16)),
        nonzero!(NonZeroI32, ni(32)),
        nonzero!(NonZeroI64, ni(64)),
        nonzero!(NonZeroI128, ni(128)),
        nonzero!(NonZeroIsize, ni(isize::BITS as usize)),
    ]
}

/// every context worth trying; sizes go one beyond the type
fn forms(w: usize) -> Vec<Form> {
    let mut v = vec![Form::None];
    let es = [E::Le, E::Be];
    let os = [O::Msb, O::Lsb];
    for e in es {
        v.push(Form::E(e));
        for o in os {
            v.push(Form::EO(e, o));
        }
    }
    for o in os {
        v.push(Form::O(o));
    }
    for n in (0..=w + 1).chain([w + 8, 4 * w, usize::MAX]) {
        v.push(Form::Bits(n));
        for o in os {
            v.push(Form::BitsO(n, o));
        }
        for e in es {
            v.push(Form::EBits(e, n));
            for o in os {
                v.push(Form::EBitsO(e, n, o));
            }
        }
    }
    for n in (0..=w / 8 + 1).chain([w, usize::MAX]) {
        v.push(Form::Bytes(n));
        for e in es {
            v.push(Form::EBytes(e, n));
            for o in os {
                v.push(Form::EBytesO(e, n, o));
            }
        }
    }
    v
}

fn mask(n: usize) -> u128 {
    if n >= 128 {
        u128::MAX
    } else {
        (1 << n) - 1
    }
}

/// values around what fits n bits
fn value(n: usize, w: usize, s: bool, rng: &mut Rng) -> i128 {
    let n = n.min(w);
    let m = mask(n);
    let v: u128 = match rng.below(12) {
        0 => 0,
        1 => 1,
        2 => m,
        3 => m.wrapping_add(1),
        4 => m >> 1,
        5 => (m >> 1).wrapping_add(1),
        6 => 1 << rng.below(128),
        7 => rng.u128() & m >> 1,
        8 => !(rng.u128() & m >> 1),
        9 => rng.u128(),
        _ => rng.u128() & m,
    };
    // as the type holds it
    let v = v & mask(w);
    if s {
        model::sign_extend(v, w)
    } else {
        v as i128
    }
}

pub fn show(r: &Result<Raw, Er>) -> String {
    match r {
        Ok(r) => format!("{:?} after {} bits, rest {:?}", r.val, r.bits_read, r.rest.iter().map(|b| u8::from(*b)).collect::<Vec<_>>()),
        Err(e) => format!("{e:?}"),
    }
}

fn lead(rng: &mut Rng) -> Lead {
    Lead {
        bits: *rng.pick(&[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 16]),
        order: *rng.pick(&[Order::Msb0, Order::Lsb0]),
    }
}

pub fn judge_read(rep: &mut Report, key: &str, here: impl Fn() -> String, m: &Result<Raw, ME>, r: &Result<Raw, Er>) {
    let ok = match (m, r) {
        (_, Err(x)) if fatal(x) => false,
        (Err(ME::Undef(_)), _) => {
            rep.count("not judged");
            return;
        }
        (Ok(m), Ok(r)) => m == r,
        (Err(m), Err(r)) => class(m) == r.class(),
        _ => false,
    };
    rep.eval(&match m {
        Ok(_) => "read ok".to_string(),
        Err(m) => format!("read {}", class(m)),
    });
    rep.check(ok, key, || {
        let m = match m {
            Ok(m) => show(&Ok(m.clone())),
            Err(m) => class(m).to_string(),
        };
        format!("{}: {}, the format says {m}", here(), show(r))
    });
}

/// R03 (values which fit) or R11 (values and sizes which do not)
pub fn run(rep: &mut Report, refused: bool) -> Meta {
    let reps = rep.scale(if refused { 8 } else { 12 }, if refused { 100 } else { 150 });
    let all = scalars();
    let mut items = vec![];
    for (i, s) in all.iter().enumerate() {
        for (j, part) in forms(s.w).chunks(40).enumerate() {
            items.push((i, j, part.to_vec()));
        }
    }
    par(rep, &items, |it| format!("{} {}", it.0, it.1), |rep, (i, _, forms), rng| {
        let sc = &all[*i];
        let signed = matches!(sc.ty, Ty::Int { s: true, .. } | Ty::NonZero { s: true, .. });
        for f in forms {
            let a = f.args();
            for k in 0..reps {
                let l = if k < 3 { Lead { bits: 0, order: Order::Msb0 } } else { lead(rng) };
                // read
                let mut data = rng.bytes(24);
                if rng.chance(1, 6) {
                    data = vec![*rng.pick(&[0, 0xff, 0x80, 1]); 24];
                }
                if rng.chance(1, 8) {
                    let n = rng.below(20);
                    data.truncate(n);
                }
                let m = model_read(&sc.ty, &a, None, &data, l);
                if refused != matches!(m, Err(ME::Parse | ME::InvalidParam)) {
                    rep.count("read: other property");
                } else if let Some(r) = (sc.read)(&data, l, *f) {
                    rep.distinct(&format!("r {} {f:?} {l:?} {}", sc.name, m.is_ok()));
                    judge_read(rep, &format!("{} read {f:?}", sc.name), || format!("{} {f:?} after {l:?} from {}", sc.name, hex(&data)), &m, &r);
                }
                // write
                let n = a.bits.or(a.bytes.map(|b| b.saturating_mul(8))).unwrap_or(sc.w);
                let w = if matches!(sc.ty, Ty::Bool) { 1 } else { sc.w };
                let v = Val::N(value(n, w, signed, rng));
                let before: Vec<bool> = (0..l.bits).map(|_| rng.bool()).collect();
                let m = match model_write(&sc.ty, &v, &a, &before, l.order) {
                    Err(ME::Undef(_)) | Ok(None) => {
                        rep.count("not judged");
                        continue;
                    }
                    Ok(Some(m)) => Ok(m),
                    Err(m) => Err(m),
                };
                if refused == m.is_ok() {
                    rep.count("write: other property");
                    continue;
                }
                let Some(r) = (sc.write)(&v, &before, l.order, *f) else { continue };
                rep.distinct(&format!("w {} {f:?} {l:?} {}", sc.name, m.is_ok()));
                rep.eval(if m.is_ok() { "write ok" } else { "write refused" });
                let ok = match (&m, &r) {
                    (_, Err(x)) if fatal(x) => false,
                    (Ok(m), Ok(r)) => *m == r.0 && r.1 == 8 * m.len(),
                    (Err(m), Err(x)) => class(m) == x.class(),
                    _ => false,
                };
                rep.check(ok, &format!("{} write {f:?}", sc.name), || {
                    let r = match &r {
                        Ok(r) => format!("{} ({} bits)", hex(&r.0), r.1),
                        Err(e) => format!("{e:?}"),
                    };
                    format!("{} {v:?} with {f:?} after {l:?} {before:?}: {r}, the format says {:?}", sc.name, m.as_ref().map(|m| hex(m)))
                });
            }
        }
    });
    if refused {
        Meta {
            level: "exploration",
            rule: "distinct (type, context, alignment, order of the bits before) for which a value or size outside of what fits had to be refused",
            assumptions: &["integers written with a size in bytes keep their low bytes, which the test suite pins"],
        }
    } else {
        Meta {
            level: "exploration",
            rule: "distinct (direction, type, context, alignment, order of the bits before, outcome): all sizes of all integer types in every endian and bit order",
            assumptions: &["bits of both orders in one byte are not judged when writing", "signed big endian integers read least significant bit first whose size is no whole number of bytes are not judged"],
        }
    }
}
