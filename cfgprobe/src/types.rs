//! Types for every configuration
use deku::ctx::*;
use deku::no_std_io::{Read, Seek, Write};
use deku::prelude::*;

#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
pub struct Native {
    a: u8,
    b: u16,
    c: u32,
    d: u64,
    e: u128,
    f: i8,
    g: i16,
    h: i32,
    i: i64,
    j: i128,
    k: f32,
    l: bool,
    m: [u16; 3],
    n: (u32, u8),
    #[deku(bytes = 3)]
    o: u32,
    #[deku(bytes = 7)]
    p: i64,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct Big {
    a: u8,
    b: u16,
    c: u32,
    d: u64,
    e: u128,
    f: i16,
    g: i32,
    h: f64,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct Word {
    a: usize,
    b: u8,
    #[deku(endian = "little")]
    c: [isize; 2],
    #[deku(bytes = 3)]
    d: usize,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct Little {
    a: i64,
    b: u16,
    #[deku(endian = "big")]
    c: u32,
    d: [u16; 3],
    #[deku(endian = "big")]
    e: [i32; 2],
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct Sized_ {
    #[deku(bytes = 3)]
    a: u32,
    #[deku(bytes = 1)]
    b: u16,
    #[deku(bytes = 5, endian = "little")]
    c: u64,
    #[deku(bytes = 2)]
    d: i32,
    #[deku(bytes = 11)]
    e: u128,
    #[deku(bytes = 4)]
    f: u32,
    #[deku(bytes = 7)]
    g: i64,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
pub struct NonZ {
    a: core::num::NonZeroU8,
    #[deku(endian = "big")]
    b: core::num::NonZeroU16,
    c: core::num::NonZeroI32,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
pub struct Tuple(u8, #[deku(endian = "big")] u16, (u8, u16), (), [bool; 2]);
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
pub struct Unit_;
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct Addr {
    a: core::net::Ipv4Addr,
    #[deku(endian = "big")]
    b: core::net::Ipv6Addr,
    #[deku(endian = "little")]
    c: core::net::Ipv4Addr,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(magic = b"dk")]
#[deku(endian = "little")]
pub struct Magic {
    a: u8,
    #[deku(magic = b"\x01\x02\x03")]
    b: u16,
    c: u8,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct Pad {
    #[deku(pad_bytes_after = "2")]
    a: u8,
    #[deku(pad_bytes_before = "1 + (*a & 3) as usize")]
    b: u16,
    #[deku(pad_bytes_before = "1", pad_bytes_after = "3")]
    c: u8,
    #[deku(pad_bytes_after = "40")]
    d: u8,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct PadSigned {
    a: u8,
    #[deku(pad_bytes_before = "*a as i8 as i64")]
    b: u8,
    #[deku(pad_bytes_after = "(*a as i8 as i64) / 2")]
    c: u8,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct PadLong {
    a: u8,
    #[deku(pad_bytes_before = "*a")]
    b: u8,
    #[deku(pad_bytes_after = "u16::from(*b) + 3")]
    c: u8,
    d: u8,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct PadHuge {
    a: u32,
    #[deku(pad_bytes_before = "*a % 100_000")]
    b: u8,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct Asserts {
    #[deku(assert = "*a & 0xf0 == 0")]
    a: u8,
    #[deku(assert_eq = "1")]
    b: u8,
    #[deku(assert = "*c >= u16::from(*a)")]
    c: u16,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct Cond {
    a: u8,
    #[deku(cond = "*a & 1 == 1")]
    b: Option<u16>,
    #[deku(cond = "*a & 2 == 2", default = "Some(7)")]
    c: Option<u8>,
    #[deku(cond = "*a & 4 == 4", default = "9")]
    d: u32,
    #[deku(skip)]
    e: u8,
    #[deku(skip, cond = "*a & 8 == 8", default = "*a")]
    f: u8,
    #[deku(skip, default = "5")]
    g: u16,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
pub struct Update_ {
    #[deku(update = "self.b.len() as u8")]
    a: u8,
    b: [u8; 3],
    #[deku(
        update = "self.b.iter().map(|x| u16::from(*x)).sum::<u16>()",
        endian = "big"
    )]
    c: u16,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct Mapped {
    #[deku(
        map = "|x: u8| -> Result<u16, DekuError> { Ok(u16::from(x) * 3) }",
        writer = "(((*a / 3) & 0xff) as u8).to_writer(deku::writer, ())"
    )]
    a: u16,
    #[deku(
        reader = "custom_read(deku::reader)",
        writer = "custom_write(b, deku::writer)"
    )]
    b: u32,
    c: u8,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct Offsets {
    a: u8,
    #[deku(
        reader = "offset(deku::reader, deku::byte_offset)",
        writer = "(0u8).to_writer(deku::writer, ())"
    )]
    b: usize,
    #[deku(cond = "deku::byte_offset == 2")]
    c: Option<u16>,
    #[deku(skip, default = "deku::byte_offset as u32")]
    d: u32,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(ctx = "n: u8, e: Endian", ctx_default = "3, Endian::Big", endian = "e")]
pub struct Ctx {
    a: u16,
    #[deku(skip, default = "n")]
    b: u8,
    #[deku(cond = "n > 2")]
    c: Option<u16>,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct CtxUser {
    #[deku(endian = "little", ctx = "1")]
    a: CtxOnly,
    #[deku(ctx = "*n_of(a)")]
    b: CtxOnly,
    c: Nested,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(ctx = "e: Endian, n: u8", endian = "e")]
pub struct CtxOnly {
    #[deku(assert = "*a != u16::from(n)")]
    a: u16,
    b: u8,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(ctx = "endian: Endian", endian = "endian")]
pub struct Nested {
    a: u32,
    b: Inner,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(ctx = "endian: Endian", endian = "endian")]
pub struct Inner {
    a: u16,
    #[deku(endian = "little")]
    b: u16,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(seek_from_start = "1")]
#[deku(endian = "little")]
pub struct SeekStart {
    a: u8,
    #[deku(seek_from_current = "2")]
    b: u16,
    #[deku(seek_rewind)]
    c: u8,
    #[deku(seek_from_start = "*a as u64 & 7")]
    d: u8,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct SeekEnd {
    #[deku(seek_from_end = "-3")]
    a: u8,
    #[deku(seek_from_current = "-1")]
    b: u8,
    #[deku(seek_from_current = "*b as i8 as i64")]
    c: u8,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
pub struct Generic<T>
where
    T: deku::DekuWriter + for<'x> DekuReader<'x>,
{
    a: T,
    b: [T; 2],
}

pub type Gen16 = Generic<u16>;

fn n_of(c: &CtxOnly) -> &u8 {
    &c.b
}

pub fn custom_read<R: Read + Seek>(r: &mut Reader<R>) -> Result<u32, DekuError> {
    let a = u8::from_reader_with_ctx(r, ())?;
    let mut b = [0; 2];
    r.read_bytes(2, &mut b, Order::Msb0)?;
    if a == 0xee {
        return Err(DekuError::Parse("no".into()));
    }
    Ok(u32::from(a) << 16 | u32::from(b[0]) << 8 | u32::from(b[1]))
}

pub fn custom_write<W: Write + Seek>(v: &u32, w: &mut Writer<W>) -> Result<(), DekuError> {
    ((v >> 16) as u8).to_writer(w, ())?;
    w.write_bytes(&[(v >> 8) as u8, *v as u8])
}

pub fn offset<R: Read + Seek>(r: &mut Reader<R>, at: usize) -> Result<usize, DekuError> {
    let _ = u8::from_reader_with_ctx(r, ())?;
    Ok(at)
}

#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
#[deku(endian = "little")]
pub enum E8 {
    #[deku(id = 0x01)]
    A,
    #[deku(id = 0x02)]
    B(u8),
    #[deku(id = 3)]
    C {
        x: u16,
        #[deku(endian = "big")]
        y: u16,
    },
    #[deku(id_pat = "4..=9")]
    D(u8, u16),
    #[deku(id_pat = "_")]
    Z { id: u8, v: u8 },
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "u16", id_endian = "big", endian = "little", magic = b"E")]
pub enum E16 {
    #[deku(id = "0x0102")]
    A(u32),
    #[deku(id = "0x0201")]
    B(u32),
    #[deku(id_pat = "0x0000..=0x00ff")]
    C { id: u16 },
    #[deku(id = 0x0300, default)]
    D,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "u32", bytes = 3, endian = "big")]
pub enum E24 {
    #[deku(id = 1)]
    A(u8),
    #[deku(id = 0x10000)]
    B(u16),
    #[deku(id_pat = "_")]
    C(u32),
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[repr(u8)]
#[deku(id_type = "u8")]
pub enum Disc {
    A = 0,
    B = 7,
    C,
    D = 0xff,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[repr(i16)]
#[deku(id_type = "i16", endian = "big")]
pub enum DiscS {
    A = -2,
    B,
    C,
    D = 300,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(ctx = "k: u8", id = "k")]
pub enum ById {
    #[deku(id = 0)]
    A(u8),
    #[deku(id = 1)]
    B(#[deku(endian = "little")] u16),
    #[deku(id_pat = "_")]
    C([u8; 3]),
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "[u8; 2]")]
#[deku(endian = "little")]
pub enum ByArr {
    #[deku(id = b"ab")]
    A(u8),
    #[deku(id = b"cd")]
    B(u16),
    #[deku(id_pat = "[b'z', _]")]
    C([u8; 2], u8),
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "bool")]
pub enum ByBool {
    #[deku(id = true)]
    A(u8),
    #[deku(id = false)]
    B,
}
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
pub struct HasEnum {
    k: u8,
    #[deku(ctx = "*k & 3")]
    e: ById,
    f: E8,
}

#[deku_derive(DekuRead, DekuWrite)]
#[derive(Debug, Clone, PartialEq)]
#[deku(endian = "big")]
pub struct Temp {
    #[deku(temp, temp_value = "a.len() as u16")]
    n: u16,
    a: [u8; 3],
    #[deku(temp, temp_value = "(*c & 0xff) as u8")]
    m: u8,
    #[deku(skip, default = "u32::from(*n) + u32::from(*m)")]
    c: u32,
}

#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct Size {
    a: u8,
    b: u16,
    #[deku(bytes = 3)]
    c: u32,
    #[deku(pad_bytes_after = "2")]
    d: [u16; 4],
    #[deku(magic = b"ab")]
    e: (u8, u32),
}

#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "u16", id_endian = "little", magic = b"xyz")]
pub enum SizeE {
    #[deku(id = 1)]
    A(u8),
    #[deku(id = 2)]
    B {
        #[deku(endian = "little")]
        a: u64,
        b: Size,
    },
    #[deku(id = 3)]
    C,
}

#[cfg(feature = "alloc")]
pub mod heap {
    extern crate alloc;
    use alloc::borrow::Cow;
    use alloc::boxed::Box;
    use alloc::ffi::CString;
    use alloc::sync::Arc;
    use alloc::vec::Vec;
    use deku::prelude::*;

    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "little")]
    pub struct Count {
        n: u8,
        #[deku(count = "*n & 7")]
        v: Vec<u8>,
        #[deku(count = "*n >> 5", endian = "big")]
        w: Vec<u16>,
        m: u32,
        #[deku(count = "*m")]
        x: Vec<u8>,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "little")]
    pub struct CountS {
        a: i16,
        #[deku(count = "*a % 8")]
        v: Vec<u16>,
        b: i64,
        #[deku(count = "*b % 5")]
        w: Vec<u8>,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "little")]
    pub struct BytesS {
        a: i8,
        #[deku(bytes_read = "*a % 7")]
        v: Vec<u8>,
        b: i128,
        #[deku(bytes_read = "*b % 4 * 2")]
        w: Vec<u16>,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "little")]
    pub struct CountL {
        a: u32,
        #[deku(count = "*a")]
        v: Vec<u64>,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "little")]
    pub struct BytesL {
        a: u32,
        #[deku(bytes_read = "*a")]
        v: Vec<u8>,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "little")]
    pub struct ReadAll {
        a: u8,
        #[deku(read_all)]
        v: Vec<u16>,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "little")]
    pub struct Until {
        #[deku(until = "|x: &u8| *x == 0")]
        a: Vec<u8>,
        #[deku(until = "|x: &(u8, u8)| x.0 > x.1")]
        b: Vec<(u8, u8)>,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "little")]
    pub struct BytesRead {
        n: u8,
        #[deku(bytes_read = "*n & 15")]
        v: Vec<u16>,
        #[deku(bytes_read = "*n >> 6")]
        w: Vec<u8>,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    pub struct Strings {
        a: CString,
        #[deku(ctx = "deku::ctx::ByteSize(4)")]
        b: CString,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "little")]
    pub struct Boxes {
        a: Box<u16>,
        #[deku(count = "3")]
        b: Box<[u8]>,
        #[deku(count = "2", endian = "big")]
        c: Arc<[u16]>,
        d: Arc<u32>,
        #[deku(endian = "big")]
        e: Cow<'static, u16>,
        #[deku(count = "2")]
        f: Vec<Box<u8>>,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    pub struct Inner {
        n: u8,
        #[deku(count = "*n & 3")]
        v: Vec<u8>,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    pub struct Outer {
        n: u8,
        #[deku(count = "*n & 3")]
        v: Vec<Inner>,
        #[deku(cond = "*n > 100")]
        o: Option<Inner>,
        #[deku(read_all)]
        rest: Vec<Inner>,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "little")]
    pub struct UpdateV {
        #[deku(update = "self.v.len()")]
        n: u16,
        #[deku(count = "*n & 15")]
        v: Vec<u8>,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(id_type = "u8", endian = "big")]
    pub enum EV {
        #[deku(id = 1)]
        A {
            n: u8,
            #[deku(count = "*n")]
            v: Vec<u8>,
        },
        #[deku(id = 2)]
        B(#[deku(until = "|x: &u16| *x == 0")] Vec<u16>),
        #[deku(id_pat = "_")]
        C(u8, u8),
    }
}

#[cfg(feature = "std")]
pub mod full {
    use deku::prelude::*;
    use std::collections::{HashMap, HashSet};

    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "little")]
    pub struct Maps {
        n: u8,
        #[deku(count = "*n & 1")]
        m: HashMap<u8, u16>,
        #[deku(count = "1", endian = "big")]
        s: HashSet<u16>,
        #[deku(bytes_read = "3")]
        t: HashMap<u8, u16>,
    }
}

#[cfg(feature = "bits")]
pub mod bits {
    use deku::prelude::*;

    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "little")]
    pub struct Bits {
        #[deku(bits = 3)]
        a: u8,
        #[deku(bits = 13)]
        b: u16,
        #[deku(bits = 1)]
        c: bool,
        #[deku(bits = 7)]
        d: i8,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "big")]
    pub struct BitsBig {
        #[deku(bits = 4)]
        a: u8,
        b: u16,
        #[deku(bits = 20)]
        c: u32,
        #[deku(bits = 33)]
        d: u64,
        #[deku(bits = 9)]
        e: i16,
        f: [u8; 2],
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(bit_order = "lsb")]
    #[deku(endian = "little")]
    pub struct BitsLsb {
        #[deku(bits = 4)]
        a: u8,
        #[deku(bits = 7)]
        b: u8,
        #[deku(bits = 21)]
        c: u32,
        d: u16,
        #[deku(bits = 5)]
        e: i8,
        #[deku(bits = 3)]
        f: u8,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(bit_order = "lsb", endian = "big")]
    pub struct BitsLsbBig {
        #[deku(bits = 12)]
        a: u16,
        #[deku(bits = 4)]
        b: u8,
        c: u32,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "little")]
    pub struct PadBits {
        #[deku(bits = 3, pad_bits_after = "2")]
        a: u8,
        #[deku(pad_bits_before = "3", pad_bytes_before = "1")]
        b: u8,
        #[deku(bits = 2, pad_bits_after = "*a as usize", pad_bits_before = "1")]
        c: u8,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(id_type = "u8", bits = 4)]
    pub enum EBits {
        #[deku(id = 1)]
        A(#[deku(bits = 4)] u8),
        #[deku(id = 2)]
        B(#[deku(bits = 12)] u16),
        #[deku(id_pat = "_")]
        C {
            id: u8,
            #[deku(bits = 4)]
            v: u8,
        },
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "big")]
    pub struct Offs {
        #[deku(bits = 5)]
        a: u8,
        #[deku(skip, default = "deku::bit_offset as u32")]
        b: u32,
        #[deku(bits = 3)]
        c: u8,
        #[deku(skip, default = "(deku::bit_offset + deku::byte_offset) as u32")]
        d: u32,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    pub struct Mixed {
        #[deku(bits = 4)]
        a: u8,
        e: EBits,
        #[deku(bits = 4)]
        b: u8,
        c: super::Big,
        #[deku(bits = 2)]
        d: u8,
        p: super::Pad,
    }

    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite, DekuSize)]
    #[deku(endian = "big")]
    pub struct SizeB {
        #[deku(bits = 3)]
        a: u8,
        #[deku(bits = 9, pad_bits_after = "4")]
        b: u16,
        c: u8,
    }

    #[cfg(feature = "alloc")]
    pub mod heap {
        extern crate alloc;
        use alloc::vec::Vec;
        use deku::prelude::*;
        #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
        pub struct BitsRead {
            #[deku(bits = 4)]
            n: u8,
            #[deku(bits_read = "*n as usize * 2", bits = 2)]
            v: Vec<u8>,
            #[deku(count = "*n", bits = 3)]
            w: Vec<u8>,
            #[deku(bits_read = "16", endian = "big")]
            x: Vec<u16>,
        }
        #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
        #[deku(endian = "little")]
        pub struct BitsS {
            a: i32,
            #[deku(bits_read = "*a % 9", bits = 1)]
            v: Vec<u8>,
            b: u32,
            #[deku(bits_read = "*b")]
            w: Vec<u8>,
        }
        #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
        #[deku(endian = "little")]
        pub struct PadBitsS {
            a: i16,
            #[deku(pad_bits_before = "*a % 9")]
            v: u8,
            b: u32,
            #[deku(pad_bits_before = "*b % 100_000")]
            w: u8,
        }
        #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
        pub struct Unaligned {
            #[deku(bits = 3)]
            n: u8,
            #[deku(count = "*n")]
            v: Vec<u8>,
            #[deku(until = "|x: &u8| *x & 3 == 0")]
            u: Vec<u8>,
            #[deku(read_all, bits = 5)]
            w: Vec<u8>,
        }
    }
}

/// What a big-endian machine does with a type without a byte order
pub mod twin {
    use deku::prelude::*;

    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "big")]
    pub struct Native {
        a: u8,
        b: u16,
        c: u32,
        d: u64,
        e: u128,
        f: i8,
        g: i16,
        h: i32,
        i: i64,
        j: i128,
        k: f32,
        l: bool,
        m: [u16; 3],
        n: (u32, u8),
        #[deku(bytes = 3)]
        o: u32,
        #[deku(bytes = 7)]
        p: i64,
    }
    #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
    #[deku(endian = "big")]
    pub struct Word {
        a: u32,
        b: u8,
        #[deku(endian = "little")]
        c: [i32; 2],
        #[deku(bytes = 3)]
        d: u32,
    }
}
