//! Types of the standard library by themselves, with every context they take
use super::{fields, par, Meta};
use crate::diff::{class, fatal, short};
use crate::props::scalar::{end, judge_read, model_read, model_write, ord, real_read, real_write, Form, Lead, Read as ReadFn, Write as WriteFn};
use deku::ctx::{BitSize, ByteSize, Order};
use deku::prelude::*;
use std::borrow::Cow;
use std::io::{Read, Seek, Write};
use std::ffi::CString;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::sync::Arc;
use vcore::model::{Ty, E, ME, O};
use vcore::ops::{Entry, Er, Raw};
use vcore::report::{hex, Report};
use vcore::rng::Rng;
use vcore::val::{Conv, Val};

struct Scalar {
    name: &'static str,
    ty: Ty,
    #[allow(dead_code)]
    w: usize,
    read: ReadFn,
    write: WriteFn,
}

/// a Cow which borrows nothing
struct Owned(Cow<'static, u32>);

impl Conv for Owned {
    fn tv(&self) -> Val {
        self.0.tv()
    }
    fn fv(v: &Val) -> Self {
        Owned(Conv::fv(v))
    }
}
impl<C: Copy> DekuReader<'_, C> for Owned
where
    Cow<'static, u32>: DekuReader<'static, C>,
{
    fn from_reader_with_ctx<R: Read + Seek>(r: &mut Reader<R>, c: C) -> Result<Self, DekuError> {
        Ok(Owned(DekuReader::from_reader_with_ctx(r, c)?))
    }
}
impl<C: Copy> DekuWriter<C> for Owned
where
    Cow<'static, u32>: DekuWriter<C>,
{
    fn to_writer<W: Write + Seek>(&self, w: &mut Writer<W>, c: C) -> Result<(), DekuError> {
        self.0.to_writer(w, c)
    }
}

fn u(w: usize) -> Ty {
    Ty::Int { w, s: false }
}
fn i(w: usize) -> Ty {
    Ty::Int { w, s: true }
}
fn arr(t: Ty, n: usize) -> Ty {
    Ty::Arr(Box::new(t), n)
}
fn opt(t: Ty) -> Ty {
    Ty::Opt(Box::new(t))
}

fn all() -> Vec<Scalar> {
    vec![
        full!([u8; 1], arr(u(8), 1)),
        full!([u8; 3], arr(u(8), 3)),
        full!([u8; 33], arr(u(8), 33)),
        full!([u8; 0], arr(u(8), 0)),
        full!([i8; 5], arr(i(8), 5)),
        full!([u16; 2], arr(u(16), 2)),
        full!([i16; 3], arr(i(16), 3)),
        full!([u32; 2], arr(u(32), 2)),
        full!([i64; 2], arr(i(64), 2)),
        full!([u128; 1], arr(u(128), 1)),
        full!([bool; 4], arr(Ty::Bool, 4)),
        full!([f32; 2], arr(Ty::Float { w: 32 }, 2)),
        full!([[u16; 2]; 2], arr(arr(u(16), 2), 2)),
        full!([[u8; 2]; 3], arr(arr(u(8), 2), 3)),
        full!([(u8, u16); 2], arr(Ty::Tup(vec![u(8), u(16)]), 2)),
        full!((u8,), Ty::Tup(vec![u(8)])),
        full!((u16, u8), Ty::Tup(vec![u(16), u(8)])),
        full!((u8, i16, u32), Ty::Tup(vec![u(8), i(16), u(32)])),
        full!((u8, u16, u32, u64, u128, bool), Ty::Tup(vec![u(8), u(16), u(32), u(64), u(128), Ty::Bool])),
        full!((i8, i16, i32, i64, i128, [u8; 2], Option<u8>), Ty::Tup(vec![i(8), i(16), i(32), i(64), i(128), arr(u(8), 2), opt(u(8))])),
        full!((u16, (), f32), Ty::Tup(vec![u(16), Ty::Unit, Ty::Float { w: 32 }])),
        full!(((u8, u16), [u16; 2]), Ty::Tup(vec![Ty::Tup(vec![u(8), u(16)]), arr(u(16), 2)])),
        full!((), Ty::Unit),
        full!(Option<u8>, opt(u(8))),
        full!(Option<u32>, opt(u(32))),
        full!(Option<(u8, u16)>, opt(Ty::Tup(vec![u(8), u(16)]))),
        full!(Box<u8>, u(8)),
        full!(Box<i32>, i(32)),
        full!(Box<[u16; 2]>, arr(u(16), 2)),
        full!(Arc<u16>, u(16)),
        full!(Arc<i64>, i(64)),
        full!(Ipv4Addr, u(32)),
        full!(Ipv6Addr, u(128)),
        full!([Ipv4Addr; 2], arr(u(32), 2)),
        full!(Owned, u(32)),
    ]
}

fn form(rng: &mut Rng) -> Form {
    let e = if rng.bool() { E::Le } else { E::Be };
    let o = if rng.bool() { O::Msb } else { O::Lsb };
    let n = rng.below(18);
    let b = rng.below(5);
    match rng.below(13) {
        0 | 11 => Form::None,
        1 | 12 => Form::E(e),
        2 => Form::O(o),
        3 => Form::Bits(n),
        4 => Form::Bytes(b),
        5 => Form::EO(e, o),
        6 => Form::EBits(e, n),
        7 => Form::EBytes(e, b),
        8 => Form::BitsO(n, o),
        9 => Form::EBitsO(e, n, o),
        _ => Form::EBytesO(e, b, o),
    }
}

fn lead(rng: &mut Rng) -> Lead {
    Lead { bits: *rng.pick(&[0, 0, 0, 1, 3, 4, 5, 7, 8, 13]), order: *rng.pick(&[Order::Msb0, Order::Lsb0]) }
}

type Wrote = Option<Result<(Vec<u8>, usize), Er>>;

fn judge_write(rep: &mut Report, key: &str, here: impl Fn() -> String, m: Result<Option<Vec<u8>>, ME>, r: Wrote) {
    let m = match m {
        Err(ME::Undef(_)) | Ok(None) => {
            rep.count("not judged");
            return;
        }
        Ok(Some(m)) => Ok(m),
        Err(m) => Err(m),
    };
    let Some(r) = r else { return };
    rep.eval(if m.is_ok() { "write ok" } else { "write refused" });
    let ok = match (&m, &r) {
        (_, Err(x)) if fatal(x) => false,
        (Ok(m), Ok(r)) => *m == r.0 && r.1 == 8 * m.len(),
        (Err(m), Err(x)) => class(m) == x.class(),
        _ => false,
    };
    rep.check(ok, key, || format!("{}: {:?}, expected {:?}", here(), r.as_ref().map(|r| hex(&r.0)), m.as_ref().map(|m| hex(m))));
}

fn one(rep: &mut Report, s: &Scalar, rng: &mut Rng) {
    let f = form(rng);
    let l = lead(rng);
    let len = if rng.chance(1, 8) { rng.below(12) } else { rng.range(34, 90) };
    let mut data = rng.bytes(len);
    if rng.chance(1, 2) {
        // more often valid for bools
        for b in &mut data {
            if rng.chance(4, 5) {
                *b &= 1;
            }
        }
    }
    let a = f.args();
    let m = model_read(&s.ty, &a, None, &data, l);
    let Some(r) = (s.read)(&data, l, f) else { return };
    rep.distinct(&format!("r {} {f:?} {l:?} {}", s.name, m.is_ok()));
    judge_read(rep, &format!("{} read", s.name), || format!("{} {f:?} after {l:?} from {}", s.name, hex(&data)), &m, &r);
    let Ok(Raw { val, .. }) = m else { return };
    let before: Vec<bool> = (0..l.bits).map(|_| rng.bool()).collect();
    for f in [f, form(rng)] {
        let m = model_write(&s.ty, &val, &f.args(), &before, l.order);
        let r = (s.write)(&val, &before, l.order, f);
        rep.distinct(&format!("w {} {f:?} {l:?} {}", s.name, m.is_ok()));
        judge_write(rep, &format!("{} write", s.name), || format!("{} {} with {f:?} after {l:?} {before:?}", s.name, short(&val)), m, r);
    }
}

/// strings, and what can only be written
fn special(rep: &mut Report, rng: &mut Rng) {
    let l = lead(rng);
    let len = rng.below(30);
    let mut data = rng.bytes(len);
    for b in &mut data {
        if rng.chance(1, 8) {
            *b = 0;
        }
    }
    let m = model_read(&Ty::CStr, &Default::default(), None, &data, l);
    let r = real_read::<CString, _>(&data, l, ());
    rep.distinct(&format!("CString {l:?} {len} {}", m.is_ok()));
    judge_read(rep, "CString read", || format!("CString after {l:?} from {}", hex(&data)), &m, &r);
    let n = rng.below(len + 2);
    let a = Form::Bytes(n).args();
    let m = model_read(&Ty::CStr, &a, None, &data, l);
    let r = real_read::<CString, _>(&data, l, ByteSize(n));
    judge_read(rep, "CString read with a size", || format!("CString of {n} bytes after {l:?} from {}", hex(&data)), &m, &r);
    let before: Vec<bool> = (0..l.bits).map(|_| rng.bool()).collect();
    let text: Vec<u8> = data.iter().copied().filter(|b| *b != 0).collect();
    if let Ok(c) = CString::new(text.clone()) {
        let m = model_write(&Ty::CStr, &Val::Str(text), &Default::default(), &before, l.order);
        judge_write(rep, "CString write", || format!("{c:?} after {l:?}"), m, Some(real_write(&c, &before, l.order, ())));
    }
    // slices and addresses
    let e = if rng.bool() { E::Le } else { E::Be };
    let v: Vec<u16> = data.iter().map(|b| u16::from(*b) * 257 ^ 0x1234).collect();
    let list = Val::List(v.iter().map(|n| Val::N(i128::from(*n))).collect());
    let ty = Ty::Vec(Box::new(u(16)));
    let m = || model_write(&ty, &list, &Form::E(e).args(), &before, l.order);
    let s: &[u16] = &v;
    judge_write(rep, "&[u16] write", || format!("{v:?} {e:?} after {l:?} {before:?}"), m(), Some(real_write(&s, &before, l.order, end(e))));
    let boxed: Box<[u16]> = v.clone().into();
    judge_write(rep, "Box<[u16]> write", || format!("{v:?} {e:?} after {l:?} {before:?}"), m(), Some(real_write(&boxed, &before, l.order, end(e))));
    let shared: Arc<[u16]> = v.clone().into();
    judge_write(rep, "Arc<[u16]> write", || format!("{v:?} {e:?} after {l:?} {before:?}"), m(), Some(real_write(&shared, &before, l.order, end(e))));
    judge_write(rep, "Vec<u16> write", || format!("{v:?} {e:?} after {l:?} {before:?}"), m(), Some(real_write(&v, &before, l.order, end(e))));
    let list = Val::List(data.iter().map(|n| Val::N(i128::from(*n))).collect());
    let ty = Ty::Vec(Box::new(u(8)));
    let m = model_write(&ty, &list, &Default::default(), &before, l.order);
    judge_write(rep, "Vec<u8> write", || format!("{} after {l:?} {before:?}", hex(&data)), m, Some(real_write(&data, &before, l.order, ())));
    let ip = rng.u128();
    let (ip, ty, n) = if rng.bool() { (IpAddr::from((ip as u32).to_be_bytes()), u(32), i128::from(ip as u32)) } else { (IpAddr::from(ip.to_be_bytes()), u(128), ip as i128) };
    let m = model_write(&ty, &Val::N(n), &Form::E(e).args(), &before, l.order);
    judge_write(rep, "IpAddr write", || format!("{ip} {e:?} after {l:?} {before:?}"), m, Some(real_write(&ip, &before, l.order, end(e))));
}

pub fn run(rep: &mut Report, entries: &[Entry]) -> Meta {
    let kinds = ["ty_bool", "ty_float", "ty_nz", "ty_cstr", "ty_ip", "ty_arr", "ty_opt", "ty_tup", "ty_unit", "ty_ptr", "ty_list"];
    let _ = fields::tagged(rep, entries, &|e| kinds.iter().any(|t| e.has(t)));
    let n = rep.scale(2500, 50000);
    par(rep, &all(), |s| s.name.to_string(), |rep, s, rng| {
        for _ in 0..n {
            one(rep, s, rng);
        }
    });
    let items: Vec<usize> = (0..8).collect();
    par(rep, &items, |i| format!("special {i}"), |rep, _, rng| {
        for _ in 0..n / 2 {
            special(rep, rng);
        }
    });
    Meta {
        level: "exploration",
        rule: "distinct (direction, type, context, alignment, outcome) and (type, changed bit, outcome) which the reference model judged",
        assumptions: &["bits of both orders in one byte are not judged when writing"],
    }
}
