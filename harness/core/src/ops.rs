//! Type-erased access to the real code
use crate::mon::{Mon, STEP_LIMIT_MSG};
use crate::val::{Conv, Val};
use deku::ctx::Order;
use deku::prelude::*;
use std::any::Any;
use std::io::ErrorKind;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Er {
    Incomplete(usize),
    Parse,
    InvalidParam,
    Assertion,
    Id,
    Io(ErrorKind),
    Other,
    Panic(String),
    /// the stream's step limit was exceeded
    Endless,
}

impl Er {
    pub fn class(&self) -> &'static str {
        match self {
            Er::Incomplete(_) => "Incomplete",
            Er::Parse => "Parse",
            Er::InvalidParam => "InvalidParam",
            Er::Assertion => "Assertion",
            Er::Id => "IdVariantNotFound",
            Er::Io(_) => "Io",
            Er::Other => "Other",
            Er::Panic(_) => "Panic",
            Er::Endless => "Endless",
        }
    }
}

impl From<DekuError> for Er {
    fn from(e: DekuError) -> Self {
        crate::errs::note(&e);
        match e {
            DekuError::Incomplete(n) => Er::Incomplete(n.bit_size()),
            DekuError::Parse(_) => Er::Parse,
            DekuError::InvalidParam(_) => Er::InvalidParam,
            DekuError::Assertion(_) => Er::Assertion,
            DekuError::IdVariantNotFound => Er::Id,
            DekuError::Io(k) => Er::Io(k),
            _ => Er::Other,
        }
    }
}

pub fn panic_text(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()))
        .unwrap_or_else(|| "?".into())
}

pub fn guard<T>(f: impl FnOnce() -> Result<T, Er>) -> Result<T, Er> {
    crate::watch::op();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let t = panic_text(&*p);
            if t == STEP_LIMIT_MSG {
                Err(Er::Endless)
            } else {
                Err(Er::Panic(t))
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Read_ {
    pub val: Val,
    /// what is left: bytes, and bits of the first one which were used
    pub rest: (usize, usize),
    /// the rest is a suffix of the input
    pub suffix: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Raw {
    pub val: Val,
    pub bits_read: usize,
    pub rest: Vec<bool>,
}

#[derive(Clone, Copy)]
pub struct Ops {
    pub from_bytes: fn(&[u8], usize) -> Result<Read_, Er>,
    pub from_reader: fn(&mut Mon, usize) -> Result<(usize, Val), Er>,
    pub try_from: fn(&[u8]) -> Result<Val, Er>,
    /// Reader::new, skip, from_reader_with_ctx
    pub raw_read: fn(&mut Mon, usize) -> Result<Raw, Er>,
    /// several, one after the other
    pub raw_read_n: fn(&mut Mon, usize, usize) -> Result<Vec<Raw>, Er>,
    /// reads and throws away, for measurements
    pub read_only: fn(&[u8]) -> (Result<(), Er>, crate::alloc::Usage),
    pub to_bytes: fn(&Val) -> Result<Vec<u8>, Er>,
    pub to_slice: fn(&Val, &mut [u8]) -> Result<usize, Er>,
    pub to_bits: fn(&Val) -> Result<Vec<bool>, Er>,
    /// Writer::new, to_writer, finalize; returns bits_written
    pub to_writer: fn(&Val, &mut Mon) -> Result<usize, Er>,
    /// to_slice, with what it allocated
    pub measure_write: fn(&Val, &mut [u8]) -> Result<crate::alloc::Usage, Er>,
    pub into_vec: fn(&Val) -> Result<Vec<u8>, Er>,
    pub into_bits: fn(&Val) -> Result<Vec<bool>, Er>,
    pub update: fn(&Val) -> Result<Val, Er>,
    /// through NoSeek
    pub read_noseek: fn(&mut Mon) -> Result<Raw, Er>,
    pub write_noseek: fn(&Val, &mut Mon) -> Result<usize, Er>,
    /// to_val(from_val(v))
    pub ident: fn(&Val) -> Val,
    pub size_of: usize,
}

fn from_bytes<T>(data: &[u8], off: usize) -> Result<Read_, Er>
where
    T: for<'a> DekuContainerRead<'a> + Conv,
{
    crate::watch::on(std::any::type_name::<T>(), data);
    guard(|| {
        let ((rest, bits), v) = T::from_bytes((data, off))?;
        let suffix = rest.len() <= data.len()
            && (rest.is_empty() || std::ptr::eq(rest.as_ptr(), data[data.len() - rest.len()..].as_ptr()));
        Ok(Read_ { val: v.tv(), rest: (rest.len(), bits), suffix })
    })
}
fn from_reader<T>(m: &mut Mon, off: usize) -> Result<(usize, Val), Er>
where
    T: for<'a> DekuContainerRead<'a> + Conv,
{
    crate::watch::on(std::any::type_name::<T>(), &m.data);
    guard(|| {
        let (n, v) = T::from_reader((m, off))?;
        Ok((n, v.tv()))
    })
}
fn try_from<T>(data: &[u8]) -> Result<Val, Er>
where
    T: for<'a> TryFrom<&'a [u8], Error = DekuError> + Conv,
{
    crate::watch::on(std::any::type_name::<T>(), data);
    guard(|| Ok(T::try_from(data)?.tv()))
}
fn raw_read<T>(m: &mut Mon, off: usize) -> Result<Raw, Er>
where
    T: for<'a> DekuReader<'a> + Conv,
{
    crate::watch::on(std::any::type_name::<T>(), &m.data);
    guard(|| {
        let mut r = Reader::new(m);
        if off != 0 {
            r.skip_bits(off, Order::Msb0)?;
        }
        let v = T::from_reader_with_ctx(&mut r, ())?;
        Ok(Raw { val: v.tv(), bits_read: r.bits_read, rest: r.rest() })
    })
}
fn raw_read_n<T>(m: &mut Mon, off: usize, n: usize) -> Result<Vec<Raw>, Er>
where
    T: for<'a> DekuReader<'a> + Conv,
{
    crate::watch::on(std::any::type_name::<T>(), &m.data);
    guard(|| {
        let mut r = Reader::new(m);
        if off != 0 {
            r.skip_bits(off, Order::Msb0)?;
        }
        let mut out = vec![];
        for _ in 0..n {
            let v = T::from_reader_with_ctx(&mut r, ())?;
            out.push(Raw { val: v.tv(), bits_read: r.bits_read, rest: r.rest() });
        }
        Ok(out)
    })
}
fn read_only<T>(data: &[u8]) -> (Result<(), Er>, crate::alloc::Usage)
where
    T: for<'a> DekuContainerRead<'a>,
{
    crate::watch::on(std::any::type_name::<T>(), data);
    crate::alloc::measure(|| {
        guard(|| {
            let v = T::from_bytes((data, 0))?;
            std::hint::black_box(&v);
            Ok(())
        })
    })
}
fn to_bytes<T: DekuContainerWrite + Conv>(v: &Val) -> Result<Vec<u8>, Er> {
    crate::watch::on(std::any::type_name::<T>(), &[]);
    let t = T::fv(v);
    guard(|| Ok(t.to_bytes()?))
}
fn to_slice<T: DekuContainerWrite + Conv>(v: &Val, buf: &mut [u8]) -> Result<usize, Er> {
    crate::watch::on(std::any::type_name::<T>(), &[]);
    let t = T::fv(v);
    guard(|| Ok(t.to_slice(buf)?))
}
fn measure_write<T: DekuContainerWrite + Conv>(v: &Val, buf: &mut [u8]) -> Result<crate::alloc::Usage, Er> {
    crate::watch::on(std::any::type_name::<T>(), &[]);
    let t = T::fv(v);
    guard(|| {
        let (r, u) = crate::alloc::measure(|| t.to_slice(buf));
        r?;
        Ok(u)
    })
}
fn to_bits<T: DekuContainerWrite + Conv>(v: &Val) -> Result<Vec<bool>, Er> {
    crate::watch::on(std::any::type_name::<T>(), &[]);
    let t = T::fv(v);
    guard(|| Ok(t.to_bits()?.iter().by_vals().collect()))
}
fn to_writer<T: DekuWriter + Conv>(v: &Val, m: &mut Mon) -> Result<usize, Er> {
    crate::watch::on(std::any::type_name::<T>(), &[]);
    let t = T::fv(v);
    guard(|| {
        let mut w = Writer::new(m);
        t.to_writer(&mut w, ())?;
        w.finalize()?;
        Ok(w.bits_written)
    })
}
fn into_vec<T>(v: &Val) -> Result<Vec<u8>, Er>
where
    T: TryInto<Vec<u8>, Error = DekuError> + Conv,
{
    crate::watch::on(std::any::type_name::<T>(), &[]);
    let t = T::fv(v);
    guard(|| Ok(t.try_into()?))
}
fn into_bits<T>(v: &Val) -> Result<Vec<bool>, Er>
where
    T: TryInto<deku::bitvec::BitVec<u8, deku::bitvec::Msb0>, Error = DekuError> + Conv,
{
    crate::watch::on(std::any::type_name::<T>(), &[]);
    let t = T::fv(v);
    guard(|| {
        let b: deku::bitvec::BitVec<u8, deku::bitvec::Msb0> = t.try_into()?;
        Ok(b.iter().by_vals().collect())
    })
}
fn update<T: DekuUpdate + Conv>(v: &Val) -> Result<Val, Er> {
    crate::watch::on(std::any::type_name::<T>(), &[]);
    let mut t = T::fv(v);
    guard(|| {
        t.update()?;
        Ok(t.tv())
    })
}
fn read_noseek<T>(m: &mut Mon) -> Result<Raw, Er>
where
    T: for<'a> DekuReader<'a> + Conv,
{
    crate::watch::on(std::any::type_name::<T>(), &m.data);
    guard(|| {
        let mut r = Reader::new(deku::noseek::NoSeek::new(m));
        let v = T::from_reader_with_ctx(&mut r, ())?;
        Ok(Raw { val: v.tv(), bits_read: r.bits_read, rest: r.rest() })
    })
}
fn write_noseek<T: DekuWriter + Conv>(v: &Val, m: &mut Mon) -> Result<usize, Er> {
    crate::watch::on(std::any::type_name::<T>(), &[]);
    let t = T::fv(v);
    guard(|| {
        let mut w = Writer::new(deku::noseek::NoSeek::new(m));
        t.to_writer(&mut w, ())?;
        w.finalize()?;
        Ok(w.bits_written)
    })
}
fn ident<T: Conv>(v: &Val) -> Val {
    T::fv(v).tv()
}

pub fn ops<T>() -> Ops
where
    T: for<'a> DekuContainerRead<'a>
        + DekuContainerWrite
        + DekuUpdate
        + Conv
        + for<'a> TryFrom<&'a [u8], Error = DekuError>
        + TryInto<Vec<u8>, Error = DekuError>
        + TryInto<deku::bitvec::BitVec<u8, deku::bitvec::Msb0>, Error = DekuError>,
{
    Ops {
        from_bytes: from_bytes::<T>,
        from_reader: from_reader::<T>,
        try_from: try_from::<T>,
        raw_read: raw_read::<T>,
        raw_read_n: raw_read_n::<T>,
        read_only: read_only::<T>,
        to_bytes: to_bytes::<T>,
        to_slice: to_slice::<T>,
        to_bits: to_bits::<T>,
        to_writer: to_writer::<T>,
        measure_write: measure_write::<T>,
        into_vec: into_vec::<T>,
        into_bits: into_bits::<T>,
        update: update::<T>,
        read_noseek: read_noseek::<T>,
        write_noseek: write_noseek::<T>,
        ident: ident::<T>,
        size_of: std::mem::size_of::<T>(),
    }
}

/// A type under test
#[derive(Clone)]
pub struct Entry {
    pub name: &'static str,
    pub tags: &'static [&'static str],
    pub decl: fn() -> &'static crate::model::Decl,
    pub ops: Ops,
    pub deku_id: Option<fn(&Val) -> Result<Val, Er>>,
    /// declared by the code, expected
    pub size_bits: Option<(usize, usize)>,
}

impl Entry {
    pub fn has(&self, t: &str) -> bool {
        self.tags.contains(&t)
    }
}

pub fn deku_id<T, I>(v: &Val) -> Result<Val, Er>
where
    T: for<'a> DekuEnumExt<'a, I> + Conv,
    I: Conv,
{
    let t = T::fv(v);
    guard(|| Ok(t.deku_id()?.tv()))
}
