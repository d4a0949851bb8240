//! The custom `reader`, `writer` and `map` functions of the zoo, each with its model
use crate::model::{int_to_seq, seq_to_int, Env, Rd, Wr, E, ME, O, R};
use crate::val::Val;
use deku::ctx::{BitSize, Endian, Order};
use deku::no_std_io::{Read, Seek, Write};
use deku::prelude::*;
use std::borrow::Cow;

fn take(rd: &mut Rd, n: usize) -> R<u128> {
    let s = rd.take(n, O::Msb)?;
    Ok(seq_to_int(&s, E::Be, O::Msb))
}

// a byte, obfuscated
pub fn rd_xor<Rr: Read + Seek>(r: &mut Reader<Rr>) -> Result<u8, DekuError> {
    Ok(u8::from_reader_with_ctx(r, ())? ^ 0x5a)
}
pub fn wr_xor<W: Write + Seek>(w: &mut Writer<W>, v: &u8) -> Result<(), DekuError> {
    (*v ^ 0x5a).to_writer(w, ())
}
pub fn m_rd_xor(rd: &mut Rd, _: &Env) -> R<Val> {
    Ok(Val::N(take(rd, 8)? as i128 ^ 0x5a))
}
pub fn m_wr_xor(v: &Val, wr: &mut Wr, _: &Env) -> R<()> {
    wr.push(&int_to_seq((v.n() ^ 0x5a) as u128, 8, E::Be, O::Msb).unwrap(), O::Msb);
    Ok(())
}

// obfuscated with the first field
pub fn rd_key<Rr: Read + Seek>(r: &mut Reader<Rr>, key: u8) -> Result<u16, DekuError> {
    Ok(u16::from_reader_with_ctx(r, Endian::Big)?.wrapping_add(u16::from(key)))
}
pub fn wr_key<W: Write + Seek>(w: &mut Writer<W>, v: u16, key: u8) -> Result<(), DekuError> {
    v.wrapping_sub(u16::from(key)).to_writer(w, Endian::Big)
}
pub fn m_rd_key(rd: &mut Rd, env: &Env) -> R<Val> {
    let v = take(rd, 16)? as u16;
    Ok(Val::N(i128::from(v.wrapping_add(env.fields[0].n() as u16))))
}
pub fn m_wr_key(v: &Val, wr: &mut Wr, env: &Env) -> R<()> {
    let v = (v.n() as u16).wrapping_sub(env.fields[0].n() as u16);
    wr.push(&int_to_seq(u128::from(v), 16, E::Be, O::Msb).unwrap(), O::Msb);
    Ok(())
}

// 5 bits, refused above 29
pub fn rd_five<Rr: Read + Seek>(r: &mut Reader<Rr>) -> Result<u8, DekuError> {
    let v = u8::from_reader_with_ctx(r, (Endian::Big, BitSize(5), Order::Msb0))?;
    if v > 29 {
        return Err(DekuError::Parse(Cow::from("more than 29")));
    }
    Ok(v)
}
pub fn wr_five<W: Write + Seek>(w: &mut Writer<W>, v: u8) -> Result<(), DekuError> {
    v.to_writer(w, (Endian::Big, BitSize(5), Order::Msb0))
}
pub fn m_rd_five(rd: &mut Rd, _: &Env) -> R<Val> {
    match take(rd, 5)? {
        n @ 0..=29 => Ok(Val::N(n as i128)),
        _ => Err(ME::Parse),
    }
}
pub fn m_wr_five(v: &Val, wr: &mut Wr, _: &Env) -> R<()> {
    wr.push(&int_to_seq(v.n() as u128, 5, E::Be, O::Msb).ok_or(ME::InvalidParam)?, O::Msb);
    Ok(())
}

// a byte plus where it is
pub fn rd_at<Rr: Read + Seek>(r: &mut Reader<Rr>, bit: usize, byte: usize) -> Result<u32, DekuError> {
    let v = u8::from_reader_with_ctx(r, ())?;
    Ok(u32::from(v) << 16 | (bit as u32 & 0xff) << 8 | (byte as u32 & 0xff))
}
pub fn wr_at<W: Write + Seek>(w: &mut Writer<W>, v: u32, bit: usize, byte: usize) -> Result<(), DekuError> {
    if v & 0xffff != (bit as u32 & 0xff) << 8 | (byte as u32 & 0xff) {
        return Err(DekuError::InvalidParam(Cow::from("not where it was read")));
    }
    ((v >> 16) as u8).to_writer(w, ())
}
pub fn m_rd_at(rd: &mut Rd, env: &Env) -> R<Val> {
    let v = take(rd, 8)? as i128;
    let bit = env.bit_off as i128;
    Ok(Val::N(v << 16 | (bit & 0xff) << 8 | (bit / 8 & 0xff)))
}
pub fn m_wr_at(v: &Val, wr: &mut Wr, env: &Env) -> R<()> {
    let bit = env.bit_off as i128;
    if v.n() & 0xffff != (bit & 0xff) << 8 | (bit / 8 & 0xff) {
        return Err(ME::InvalidParam);
    }
    wr.push(&int_to_seq((v.n() >> 16) as u128 & 0xff, 8, E::Be, O::Msb).unwrap(), O::Msb);
    Ok(())
}

// reads a little endian length and that many bytes
pub fn rd_blob<Rr: Read + Seek>(r: &mut Reader<Rr>) -> Result<Vec<u8>, DekuError> {
    let n = u16::from_reader_with_ctx(r, Endian::Little)?;
    Vec::<u8>::from_reader_with_ctx(r, (deku::ctx::Limit::new_count(usize::from(n)), ()))
}
pub fn wr_blob<W: Write + Seek>(w: &mut Writer<W>, v: &[u8]) -> Result<(), DekuError> {
    (v.len() as u16).to_writer(w, Endian::Little)?;
    v.to_writer(w, ())
}
pub fn m_rd_blob(rd: &mut Rd, _: &Env) -> R<Val> {
    let n = if rd.is_gen() { rd.choose(9) } else { seq_to_int(&rd.take(16, O::Msb)?, E::Le, O::Msb) as usize };
    let mut out = vec![];
    for _ in 0..n {
        out.push(Val::N(take(rd, 8)? as i128));
    }
    Ok(Val::List(out))
}
pub fn m_wr_blob(v: &Val, wr: &mut Wr, _: &Env) -> R<()> {
    wr.push(&int_to_seq(v.len() as u128, 16, E::Le, O::Msb).ok_or(ME::Undef("long blob"))?, O::Msb);
    for b in v.items() {
        wr.push(&int_to_seq(b.n() as u128, 8, E::Be, O::Msb).unwrap(), O::Msb);
    }
    Ok(())
}

// maps
pub fn map_double(v: u8) -> Result<u16, DekuError> {
    Ok(u16::from(v) * 2)
}
pub fn m_map_double(v: &Val) -> R<Val> {
    Ok(Val::N(v.n() * 2))
}
pub fn map_even(v: u16) -> Result<u16, DekuError> {
    if v % 2 == 1 {
        return Err(DekuError::Parse(Cow::from("odd")));
    }
    Ok(v / 2)
}
pub fn m_map_even(v: &Val) -> R<Val> {
    if v.n() % 2 == 1 {
        return Err(ME::Parse);
    }
    Ok(Val::N(v.n() / 2))
}
pub fn map_pair(v: (u8, u8)) -> Result<u16, DekuError> {
    Ok(u16::from(v.0) << 8 | u16::from(v.1))
}
pub fn m_map_pair(v: &Val) -> R<Val> {
    let i = v.items();
    Ok(Val::N(i[0].n() << 8 | i[1].n()))
}
pub fn map_sum(v: Vec<u8>) -> Result<u32, DekuError> {
    Ok(v.iter().map(|v| u32::from(*v)).sum())
}
pub fn m_map_sum(v: &Val) -> R<Val> {
    Ok(Val::N(v.items().iter().map(Val::n).sum()))
}
pub fn map_same(v: u8) -> Result<u8, DekuError> {
    Ok(v)
}
pub fn m_map_same(v: &Val) -> R<Val> {
    Ok(v.clone())
}

// any number, changed a little
pub fn map_wide(v: u32) -> Result<u32, DekuError> {
    Ok(v ^ 3)
}
pub fn m_map_wide(v: &Val) -> R<Val> {
    Ok(Val::N(v.n() ^ 3))
}

// a number of 3 bytes plus a key, the second field
pub fn rd_wide<Rr: Read + Seek>(r: &mut Reader<Rr>, key: u8) -> Result<u32, DekuError> {
    let v = u32::from_reader_with_ctx(r, (Endian::Big, BitSize(24), Order::Msb0))?;
    Ok(v.wrapping_add(u32::from(key)) & 0xff_ffff)
}
pub fn wr_wide<W: Write + Seek>(w: &mut Writer<W>, v: u32, key: u8) -> Result<(), DekuError> {
    (v.wrapping_sub(u32::from(key)) & 0xff_ffff).to_writer(w, (Endian::Big, BitSize(24), Order::Msb0))
}
pub fn m_rd_wide(rd: &mut Rd, env: &Env) -> R<Val> {
    let v = take(rd, 24)? as u32;
    Ok(Val::N(i128::from(v.wrapping_add(env.fields[1].n() as u32) & 0xff_ffff)))
}
pub fn m_wr_wide(v: &Val, wr: &mut Wr, env: &Env) -> R<()> {
    let v = (v.n() as u32).wrapping_sub(env.fields[1].n() as u32) & 0xff_ffff;
    wr.push(&int_to_seq(u128::from(v), 24, E::Be, O::Msb).unwrap(), O::Msb);
    Ok(())
}
