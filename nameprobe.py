"""Programs which differ in nothing but the names in them (R28): the same definitions, once with
names nobody could object to, and then with names which deku's generated code uses as well (taken
from its source), with deku itself depended on under another name. Each prints what it observes."""
import glob, random, re

KEYWORDS = set('''as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref
return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro
override priv typeof unsized virtual yield try gen union u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize bool char str f32 f64'''.split())
RAW = 'type match fn loop async move ref use where mod impl in as box do try'.split()
# A type or type parameter with the name of something in the language's prelude hides that from every
# macro there is; no macro can be asked to withstand it.
PRELUDE = set('''Option Some None Result Ok Err Box String Vec Default Iterator From Into TryFrom TryInto Clone Copy Debug PartialEq Eq
Sized Send Sync Drop Fn FnMut FnOnce ToOwned ToString AsRef AsMut Extend IntoIterator Ord PartialOrd Hash core std alloc deku'''.split())

SHAPES = r'''
struct @T1<@P1, @P2> where @P1: for<'@l1> @d::DekuReader<'@l1> + @d::DekuWriter, @P2: for<'@l1> @d::DekuReader<'@l1> + @d::DekuWriter { @f1: @P1, #[deku(count = "2")] @f2: Vec<@P2>, @f3: u8 }
    RW | @T1<u8, u16>
---
struct @T1<'@l1> { @f1: u8, @f2: std::borrow::Cow<'@l1, u16>, #[deku(cond = "*@f1 > 4")] @f3: Option<std::borrow::Cow<'@l1, u8>> }
    RW | @T1
---
#[deku(id_type = "u8")]
enum @T1<'@l1> { #[deku(id = 1)] @V1(std::borrow::Cow<'@l1, u16>), #[deku(id_pat = "_")] @V2 { @f1: u8, @f2: u8 } }
    RW | @T1
---
struct @T1<const @K1: usize, @P1> where @P1: for<'@l1> @d::DekuReader<'@l1> + @d::DekuWriter { @f1: [u8; @K1], @f2: @P1 }
    RWS | @T1<2, u16>
---
struct @T1 { @f1: u8, #[deku(count = "@f1 % 4")] @f2: Vec<u8>, #[deku(bits = 3, pad_bits_after = "(*@f1 % 3) as usize")] @f3: u8, #[deku(bytes_read = "@f2.len()")] @f4: Vec<u8>, #[deku(cond = "*@f3 > 3", default = "*@f1")] @f5: u8 }
    RW | @T1
---
#[deku(endian = "big")]
struct @T1 { #[deku(update = "self.@f2.len()")] @f1: u8, #[deku(count = "@f1 % 5", map = "|@f3: Vec<u16>| -> Result<_, @d::DekuError> { Ok(@f3) }")] @f2: Vec<u16>, #[deku(assert = "*@f4 != 0x21", assert_eq = "*@f4")] @f4: u8, #[deku(skip, default = "@f2.len() as u8")] @f5: u8 }
    RWU | @T1
---
#[deku(id_type = "u8", bits = 3)]
enum @T1 { #[deku(id = "1")] @V1 { @f1: u8, #[deku(count = "@f1 % 3")] @f2: Vec<u8> }, #[deku(id = "2")] @V2(u8, #[deku(bits = "((*field_0 % 3) + 3) as usize")] u8), #[deku(id_pat = "4..=5")] @V3 { @f3: u8, @f1: u16 }, #[deku(id = "3", default)] @V4 }
    RW | @T1
---
#[deku(ctx = "@c1: u8, @c2: usize", ctx_default = "1, 2", id = "@c1")]
enum @T1 { #[deku(id = "1")] @V1(#[deku(count = "@c2")] Vec<u8>), #[deku(id_pat = "2 | 3")] @V2 { @f1: u8, @f2: u16 }, #[deku(id_pat = "_")] @V3 }
struct @T2 { @f1: u8, @f2: u8, #[deku(ctx = "*@f1 % 5, (*@f2 % 4) as usize")] @f3: @T1 }
    RW | @T1
    RW | @T2
---
#[deku(ctx = "@c1: @d::ctx::Endian, @c2: @d::ctx::Order", endian = "@c1", bit_order = "@c2")]
struct @T1 { @f1: u16, #[deku(bits = 4)] @f2: u8, #[deku(bits = 12)] @f3: u16 }
#[deku(endian = "big", bit_order = "lsb")]
struct @T2 { @f1: @T1, #[deku(endian = "little")] @f4: @T1 }
    RW | @T2
---
#[deku(ctx = "@c1: u8, @c2: u16", ctx_default = "1, 2", id = "@c1, @c2")]
enum @T1 { #[deku(id = "(1, 1)")] @V1(u8), #[deku(id = "(1, 2)")] @V2 { @f1: u8, @f2: u16 }, #[deku(id_pat = "(2, _)")] @V3, #[deku(id_pat = "_")] @V4(u8) }
struct @T2 { @f1: u8, @f2: u16, #[deku(ctx = "*@f1 % 3, *@f2 % 4")] @f3: @T1 }
    RWI | @T1 | (u8, u16)
    RW | @T2
---
#[repr(u8)]
#[deku(id_type = "u8")]
enum @T1 { @V1 = 1, @V2, @V3 = 7 }
    RWSI | @T1 | u8
---
#[deku(id_type = "u16", endian = "big", magic = b"\x01")]
enum @T1 { #[deku(id = "@K1")] @V1 { @f1: u8 }, #[deku(id = "0x0203")] @V2(u16) }
const @K1: u16 = 0x0102;
    RWSI | @T1 | u16
---
struct @T1 { @f1: u8, #[deku(reader = "@g1(deku::reader, *@f1)", writer = "@g2(@f2, deku::writer)")] @f2: u16, #[deku(count = "deku::byte_offset % 5")] @f3: Vec<u8>, #[deku(bits = 5)] @f4: u8, #[deku(count = "deku::bit_offset % 3", bits = 3)] @f5: Vec<u8> }
fn @g1<@P1: std::io::Read + std::io::Seek>(@c1: &mut @d::reader::Reader<@P1>, @c2: u8) -> Result<u16, @d::DekuError> { let @c3 = <u8 as @d::DekuReader<()>>::from_reader_with_ctx(@c1, ())?; Ok(@c3 as u16 * 256 + @c2 as u16) }
fn @g2<@P1: std::io::Write + std::io::Seek>(@c1: &u16, @c2: &mut @d::writer::Writer<@P1>) -> Result<(), @d::DekuError> { @d::DekuWriter::to_writer(&((@c1 / 256) as u8), @c2, ()) }
    RW | @T1
---
struct @T1 { @f1: u8, #[deku(seek_from_start = "2")] @f2: u8, #[deku(seek_from_current = "1")] @f3: u8, #[deku(seek_rewind)] @f4: u8 }
    RW | @T1
---
struct @T1<@P1>(#[deku(until = "|@c1: &u8| *@c1 % 4 == 0")] Vec<u8>, @P1, #[deku(count = "field_0.len() % 3")] Vec<@P1>) where @P1: for<'@l1> @d::DekuReader<'@l1> + @d::DekuWriter;
    RW | @T1<i8>
---
struct @T1 { #[deku(bytes = 3)] @f1: u32, #[deku(read_all)] @f2: Vec<(u8, u8)> }
    RW | @T1
---
struct @T1 { #[deku(skip)] @f1: Option<@T2>, @f2: @T2, #[deku(bits = 7, pad_bits_after = "1")] @f3: u8 }
#[derive(Default)]
struct @T2(u8, [u16; 2]);
    RWS | @T1
    RWS | @T2
---
#[deku(magic = b"\x01\x02")]
struct @T1;
struct @T2 { @f1: @T3, #[deku(count = "@f1.0")] @f2: Vec<@T3>, }
struct @T3(#[deku(bits = 2)] u8);
    RW | @T1
    RW | @T2
---
TEMP struct @T1 { #[deku(temp, temp_value = "self.@f2.len() as u8")] @f1: u8, #[deku(count = "@f1 % 6")] @f2: Vec<u8> }
    RW | @T1
---
TEMP #[deku(id_type = "u8")] enum @T1 { #[deku(id = "1")] @V1 { #[deku(temp, temp_value = "@f2.len() as u8")] @f1: u8, #[deku(count = "@f1 % 6")] @f2: Vec<u8> }, #[deku(id = "2")] @V2(u8) }
    RW | @T1
---
MACRO @g1 ($@x1:ident, $@x2:ty, $@x3:literal, $@x4:ident) { struct $@x1 { @f1: u8, $@x4: $@x2, #[deku(bits = $@x3)] @f2: u8, #[deku(count = "@f1 % 3")] @f3: Vec<$@x2> } } (@T1, u16, 5, @f4)
    RW | @T1
---
MACRO @g1 ($@x1:ident, $@x2:ident, $@x3:literal) { #[deku(id_type = "u8")] enum $@x1 { #[deku(id = $@x3)] $@x2 { @f1: u8 }, #[deku(id_pat = "_")] @V2(u8, u8) } } (@T1, @V1, 2)
    RW | @T1
---
#[derive(PartialEq)]
struct @T1 { #[deku(bits = 4)] @f1: u8, #[deku(bits = 4)] @f2: u8 }
#[deku(id_type = "@T1")]
enum @T2 { #[deku(id = "@T1 { @f1: 0, @f2: 1 }")] @V1(u8), #[deku(id_pat = "_")] @V2(@T1, @T1) }
impl @T1 { fn to_bits(&self) -> u8 { 0 } fn to_bytes(&self, @c1: u8) -> u8 { 0 } fn to_writer(&self) {} fn to_slice(&self) {} fn update(&self, @c1: u8) {} fn from_bytes(@c1: u8) {} fn from_reader(@c1: u8) {} fn from_reader_with_ctx() {} fn try_from() {} fn borrow(&self) {} fn deku_id(&self) {} }
impl @T2 { fn to_bits(&self) -> u8 { 0 } fn to_bytes(&self, @c1: u8) -> u8 { 0 } fn to_writer(&self) {} fn to_slice(&self) {} fn update(&self, @c1: u8) {} fn from_bytes(@c1: u8) {} fn from_reader(@c1: u8) {} fn from_reader_with_ctx() {} fn try_from() {} fn borrow(&self) {} fn deku_id(&self) {} }
struct @T3 { @f1: @T1, #[deku(count = "@f1.@f1 % 3")] @f3: Vec<@T1>, @f2: [@T1; 2], #[deku(until = "|@c2: &@T1| @c2.@f2 % 3 == 0")] @f4: Vec<@T1> }
    RW | @T1
    RW | @T2
    RW | @T3
---
#[deku(seek_from_current = "1", magic = b"\x02")]
struct @T1 { #[deku(magic = b"\x01", pad_bytes_before = "1")] @f1: u8, #[deku(pad_bytes_after = "@f1 % 2")] @f2: u8, #[deku(seek_from_end = "-2")] @f3: u8 }
struct @T2 { @f1: u8, @f2: @T1 }
    RW | @T1
    RW | @T2
---
#[deku(id_type = "u16", bytes = 2, id_endian = "big", endian = "little")]
enum @T1 { #[deku(id = "1")] @V1 { #[deku(bytes_read = "3")] @f1: Vec<u8>, @f2: u16 }, #[deku(id = "2")] @V2 { #[deku(bits_read = "16")] @f1: Vec<u16> }, #[deku(id = "3", reader = "@g1(deku::reader)", writer = "@g2(deku::writer, @f1)")] @V3 { @f1: u8 } }
fn @g1<@P1: std::io::Read + std::io::Seek>(@c1: &mut @d::reader::Reader<@P1>) -> Result<@T1, @d::DekuError> { Ok(@T1::@V3 { @f1: <u8 as @d::DekuReader<()>>::from_reader_with_ctx(@c1, ())? ^ 1 }) }
fn @g2<@P1: std::io::Write + std::io::Seek>(@c1: &mut @d::writer::Writer<@P1>, @c2: &u8) -> Result<(), @d::DekuError> { @d::DekuWriter::to_writer(&(@c2 ^ 1), @c1, ()) }
    RWI | @T1 | u16
---
struct @T1 { #[deku(skip(read), default = "3")] @f1: u8, #[deku(skip(write), cond = "*@f1 == 3")] @f2: u8, #[deku(writer = "@g1(deku::writer, *@f1, *@f3)")] @f3: u8, #[deku(update = "self.@f3 + 1")] @f4: u16, #[deku(map = "|@c1: u8| -> Result<_, @d::DekuError> { Ok(@c1 as u16 + 1) }", writer = "@g1(deku::writer, 1, *@f5 as u8)")] @f5: u16 }
fn @g1<@P1: std::io::Write + std::io::Seek>(@c1: &mut @d::writer::Writer<@P1>, @c2: u8, @c3: u8) -> Result<(), @d::DekuError> { @d::DekuWriter::to_writer(&(@c2 ^ @c3), @c1, ()) }
    RWU | @T1
'''

# One name in every place it can be used from, for each of the names which most likely mean something
SWEPT = r'''
struct @T1 { @f1: u8, #[deku(map = "|@c1: u8| -> Result<_, @d::DekuError> { Ok(@c1 ^ *@f1) }", writer = "@g2(deku::writer, *@f1, *m1)")] m1: u8, #[deku(count = "@f1 % 3", map = "|x: Vec<u8>| -> Result<_, @d::DekuError> { Ok(x.iter().map(|x| *x as u16 + *@f1 as u16).collect::<Vec<u16>>()) }", writer = "@g3(deku::writer, m2)")] m2: Vec<u16>, #[deku(cond = "*@f1 % 2 == 0", default = "*@f1 ^ 1")] m3: u8, #[deku(pad_bits_before = "(*@f1 % 3) as usize", bits = "((*@f1 % 4) + 1) as usize", pad_bits_after = "(*@f1 % 2) as usize")] m4: u8, #[deku(assert = "*@f1 != 0xee && *m5 != *@f1")] m5: u8, #[deku(until = "|x: &u8| *x >= *@f1")] m6: Vec<u8>, #[deku(bytes_read = "*@f1 as usize % 4")] m7: Vec<u8>, #[deku(ctx = "*@f1, *@f1 / 2")] m8: @T2, #[deku(reader = "@g1(deku::reader, *@f1)", writer = "@g2(deku::writer, *@f1, *m9)")] m9: u8, #[deku(bits_read = "(*@f1 % 2) as usize * 8")] m10: Vec<u8>, #[deku(skip, default = "*@f1")] m11: u8, #[deku(assert_eq = "*m12 ^ (*@f1 & 0)", pad_bytes_before = "(*@f1 % 2) as usize", pad_bytes_after = "1 - (*@f1 % 2) as usize")] m12: u8, #[deku(update = "self.@f1.wrapping_add(1)")] m13: u8 }
#[deku(ctx = "@c1: u8, x: u8", id = "@c1 % 3")]
enum @T2 { #[deku(id = "0")] @V1 { #[deku(cond = "x == @c1 / 2")] m1: u8 }, #[deku(id = "1")] @V2(#[deku(count = "@c1 % 4")] Vec<u8>), #[deku(id_pat = "_")] @V3 { @f1: u8, #[deku(map = "|y: u8| -> Result<_, @d::DekuError> { Ok(y ^ *@f1) }", writer = "@g2(deku::writer, *@f1, *m2)")] m2: u8, #[deku(count = "(*@f1 ^ @c1) % 2")] m3: Vec<u8> } }
fn @g1<RR: std::io::Read + std::io::Seek>(r: &mut @d::reader::Reader<RR>, @c1: u8) -> Result<u8, @d::DekuError> { Ok(<u8 as @d::DekuReader<()>>::from_reader_with_ctx(r, ())? ^ @c1) }
fn @g2<WW: std::io::Write + std::io::Seek>(w: &mut @d::writer::Writer<WW>, @c1: u8, b: u8) -> Result<(), @d::DekuError> { @d::DekuWriter::to_writer(&(@c1 ^ b), w, ()) }
fn @g3<WW: std::io::Write + std::io::Seek>(w: &mut @d::writer::Writer<WW>, @c1: &Vec<u16>) -> Result<(), @d::DekuError> { for x in @c1 { @d::DekuWriter::to_writer(&(*x as u8), w, ())?; } Ok(()) }
    RWU | @T1
---
#[deku(id_type = "u8")]
enum @T1 { #[deku(id = 1)] @V1 { @f1: u8, #[deku(seek_from_current = "(*@f1 % 2) as i64")] m1: u8 }, #[deku(id = 2)] @V2 { #[deku(temp_value = "0")] @f1: u8, #[deku(update = "*@f1 ^ 3")] m1: u8, #[deku(ctx = "*@f1")] m2: @T2 }, #[deku(id_pat = "@f1 if *@f1 == 5 || *@f1 > 100")] @V3 { m3: u8, @f1: u16 }, #[deku(id = 3)] @V4 { m1: u16, @f1: u8, #[deku(map = "@g2", writer = "@d::DekuWriter::to_writer(&(*m2 as u8), deku::writer, ())", assert = "*m2 as u16 != *m1 || *@f1 > 4")] m2: u32 } }
#[deku(ctx = "@f1: u8")]
struct @T2 { #[deku(bits = "(@f1 % 5 + 2) as usize")] m1: u8, #[deku(cond = "@f1 > *m1")] m2: u8 }
fn @g2(@f1: u8) -> Result<u32, @d::DekuError> { Ok(@f1 as u32) }
    RWU | @T1
'''
# The same for the names of types, of variants and of type parameters
SWEPT_TYPES = r'''
#[derive(PartialEq)]
struct @T1 { a: u8, b: u8 }
impl @T1 { const N: usize = 1; fn read<RR: std::io::Read + std::io::Seek>(r: &mut @d::reader::Reader<RR>) -> Result<@T1, @d::DekuError> { Ok(@T1 { b: <u8 as @d::DekuReader<()>>::from_reader_with_ctx(r, ())?, a: 7 }) } fn write<WW: std::io::Write + std::io::Seek>(&self, w: &mut @d::writer::Writer<WW>) -> Result<(), @d::DekuError> { @d::DekuWriter::to_writer(&self.b, w, ()) } fn make(v: u16) -> Result<@T1, @d::DekuError> { Ok(@T1 { a: v as u8, b: 1 }) } }
#[deku(ctx = "y: @T1", ctx_default = "@T1 { a: 1, b: 2 }")]
struct @T2 { #[deku(bits = 5)] x: u8, #[deku(pad_bits_before = "@T1::N", pad_bits_after = "@T1::N * 2")] m0: @T1, #[deku(count = "x % 3")] m1: Vec<@T1>, #[deku(bits_read = "@T1::N * 16")] m2: Vec<@T1>, #[deku(bytes_read = "@T1::N * 2")] m3: Vec<@T1>, #[deku(until = "|t: &@T1| *t != @T1 { a: 0, b: 0 }")] m4: Vec<@T1>, #[deku(skip, default = "@T1 { a: 1, b: 2 }")] m5: @T1, #[deku(cond = "*m5 == @T1 { a: 1, b: 2 }", default = "@T1 { a: 3, b: 4 }")] m6: @T1, #[deku(map = "@T1::make", writer = "@d::DekuWriter::to_writer(&(m7.a as u16), deku::writer, ())")] m7: @T1, #[deku(reader = "@T1::read(deku::reader)", writer = "@T1::write(m8, deku::writer)")] m8: @T1, #[deku(assert = "*m9 != @T1 { a: 9, b: 9 }", pad_bytes_before = "@T1::N", pad_bytes_after = "@T1::N - 1")] m9: @T1, #[deku(cond = "y != *m9")] m10: Option<@T1>, #[deku(count = "@T1::N")] m11: Vec<u8>, #[deku(update = "@T1 { a: self.m11.len() as u8, b: 0 }")] m12: @T1, m13: @T3, #[deku(read_all)] m14: Vec<@T1> }
#[deku(id_type = "u8", magic = b"\x00")]
enum @T3 { #[deku(id = "0")] A(@T1), #[deku(id_pat = "_")] B { i: u8, t: @T1 } }
    RWU | @T2
---
#[deku(id_type = "u8")]
enum @T1 { #[deku(id = "0")] @V1 { a: u8, #[deku(endian = "big", count = "a % 2")] b: Vec<u16> }, #[deku(id = "1")] B(@T2), #[deku(id_pat = "2..=9")] C { i: u8, #[deku(seek_from_current = "0")] a: u8 }, #[deku(default, id = "10")] D }
#[deku(id_type = "u16", endian = "little")]
#[repr(u16)]
enum @T2 { @V1 = 0x100, E = 3, F = 0 }
#[deku(ctx = "k: u8", id = "k % 3")]
enum @T3 { #[deku(id = "0")] @V1(u8), #[deku(id = "1")] G, #[deku(id_pat = "_")] H { t: u16 } }
struct @T4 { k: u8, #[deku(ctx = "*k")] t: @T3, #[deku(skip, default = "@T3::@V1(3)")] s: @T3, #[deku(assert = "!matches!(u, @T2::E)")] u: @T2 }
    RWIU | @T1 | u8
    RWI | @T2 | u16
    RWU | @T4
---
struct @T1<@P1> where @P1: for<'x> @d::DekuReader<'x, @d::ctx::Endian> + @d::DekuWriter<@d::ctx::Endian> { a: u8, #[deku(count = "a % 3", endian = "big")] v: Vec<@P1>, #[deku(endian = "little")] o: (@P1, @P1), #[deku(skip)] s: std::marker::PhantomData<@P1>, #[deku(endian = "little", bytes_read = "4")] w: Vec<@P1> }
#[deku(id_type = "u8", endian = "big")]
enum @T2<@P1> where @P1: for<'x> @d::DekuReader<'x, @d::ctx::Endian> + @d::DekuWriter<@d::ctx::Endian> { #[deku(id = "1")] A(@P1), #[deku(id_pat = "_")] B { i: u8, x: @P1 } }
    RW | @T1<u16>
    RW | @T2<u32>
'''
# An alias which many programs have
ALIASED = r'''
type Result<X> = core::result::Result<X, ()>;
type Option = u8;
struct @T1 { a: u8, #[deku(count = "a % 3")] b: Vec<u8>, #[deku(cond = "*a > 3", default = "7", pad_bits_before = "8")] c: u8, #[deku(assert = "*d != 9", pad_bytes_after = "*a as usize % 2", update = "self.b.len()")] d: u8, #[deku(bits_read = "16")] e: Vec<u16>, f: @T2, g: Option }
#[deku(id_type = "u8", magic = b"\x00")]
enum @T2 { #[deku(id = "0")] A(#[deku(bits = 3)] u8, #[deku(bits = 5)] u8), #[deku(id_pat = "_")] B { i: u8 } }
    RWU | @T1
    RWI | @T2 | u8
'''

SWEPT = SWEPT.replace('#[deku(temp_value = "0")] ', '')

# What each kind of name may be. The plain ones first.
def plain(kind, n):
    return {'T': f'Type{n}', 'P': f'Param{n}', 'f': f'member{n}', 'V': f'Variant{n}', 'c': f'arg{n}', 'K': f'CONSTANT{n}', 'l': f'life{n}', 'g': f'function{n}', 'x': f'hole{n}'}[kind]


def harvest():
    """Every name in the source of the derive macros, and of deku where they lead."""
    words = set()
    for f in glob.glob('/repo/deku-derive/src/macros/*.rs') + ['/repo/src/lib.rs', '/repo/src/ctx.rs', '/repo/src/reader.rs', '/repo/src/writer.rs', '/repo/src/error.rs']:
        text = re.sub(r'//.*', '', open(f).read())
        words |= set(re.findall(r"[A-Za-z_][A-Za-z0-9_]*", text))
    words = {w for w in words if w not in KEYWORDS and not w.startswith('__') and w != '_' and w not in PRELUDE}
    low = sorted(w for w in words if re.fullmatch(r'[a-z_][a-z0-9_]*', w))
    camel = sorted(w for w in words if re.fullmatch(r'[A-Z][A-Za-z0-9]*', w) and not (w.isupper() and len(w) > 1))
    upper = sorted(w for w in words if re.fullmatch(r'[A-Z][A-Z0-9_]*', w) and len(w) > 1)
    return low, camel, upper


# Those seen to matter most come up in every program
LOW = 'reader writer input output value rest idx cursor total_len bits_read read_whole_byte res ret e ctx inner_ctx limit count endian order seek skip_bits bit_offset byte_offset v s field f to_writer update deku_id try_from borrow clone'.split()
CAMEL = 'R W T Ctx Reader Writer Endian Limit Order Size ByteSize BitSize ReadExact SeekFrom Seek Read Write Cursor Borrow Error DekuError DekuReader DekuWriter DekuContainerRead DekuSize NeedSize Predicate Io Parse'.split()
UPPER = 'SIZE SIZE_BITS SIZE_BYTES N MAX'.split()
LIFE = 'a de __deku deku_a life r w ctx reader'.split()


def bound_types():
    """The names of types which generated code mentions"""
    words = set(CAMEL)
    for f in glob.glob('/repo/deku-derive/src/**/*.rs', recursive=True):
        text = re.sub(r'//.*', '', open(f).read())
        for m in re.finditer(r'\bquote(?:_spanned)?!\s*[({]', text):
            i, depth = m.end() - 1, 0
            for j in range(i, len(text)):
                depth += (text[j] in '({') - (text[j] in ')}')
                if depth == 0:
                    break
            words |= set(re.findall(r'\b[A-Z][A-Za-z0-9]*', text[i:j]))
    return sorted(words - PRELUDE - {"Self"})


def bound():
    """The names which generated code gives to something it computes, and those above"""
    words = set()
    for f in glob.glob('/repo/deku-derive/src/**/*.rs', recursive=True):
        text = re.sub(r'//.*', '', open(f).read())
        for m in re.finditer(r'\bquote(?:_spanned)?!\s*[({]', text):
            i, depth = m.end() - 1, 0
            for j in range(i, len(text)):
                depth += (text[j] in '({') - (text[j] in ')}')
                if depth == 0:
                    break
            q = text[i:j]
            words |= set(re.findall(r'\blet\s+(?:mut |ref )*\(?([a-z_]\w*)', q))
            words |= set(re.findall(r'(?<!#)\b(?:mut |ref )*([a-z_]\w*)\s*[|:](?!:)', q))
            words |= set(re.findall(r'(?:Ok|Some|Err|\()\s*\(?\s*(?:mut |ref )*([a-z_]\w*)\s*[,)]', q))
            words |= set(re.findall(r'\bfor\s+([a-z_]\w*)', q))
    words = {w for w in words if w not in KEYWORDS and not w.startswith('_')}
    return sorted(words | set(LOW) - set(TAKEN))


# names with a meaning in the definitions above
TAKEN = 'x y r w b'.split() + [f'm{i}' for i in range(1, 14)]


def names(shape, rng, swept=None):
    """The names for one shape: token -> name"""
    toks = sorted(set(re.findall(r'@([TPfVcKlgx]\d)', shape)))
    if rng is None:
        return {t: plain(t[0], t[1]) for t in toks}
    low, camel, upper = rng.pools
    used, out = set(TAKEN) if swept else set(), {}
    if swept:
        out[swept[0]] = swept[1]
        used |= {swept[1]} | (set('ABCDEFGH') if swept[0] != 'f1' else set())
    for t in toks:
        k = t[0]
        if t in out:
            continue
        while True:
            if k in 'fc':
                w = rng.choice(rng.choice([LOW, LOW, low, ['r#' + x for x in RAW]]))
            elif k in 'gx':
                w = rng.choice(rng.choice([LOW, low]))
            elif k in 'TPV':
                w = rng.choice(rng.choice([CAMEL, camel]))
            elif k == 'K':
                w = rng.choice(rng.choice([UPPER, upper or UPPER]))
            else:
                w = rng.choice(LIFE)
                if w.startswith('__'):
                    continue
            if w not in used:
                break
        used.add(w)
        out[t] = w
    return out


def definitions(share):
    """-> [(shape, None or (token, the name it has))]"""
    out = [(s, None) for s in SHAPES.strip('\n').split('\n---\n') + [ALIASED.strip('\n')]]
    words = [w for w in bound() if w not in TAKEN]
    n = -(-len(words) // SHARES)
    for k in range(n):
        for s in SWEPT.strip('\n').split('\n---\n'):
            out.append((s, ('f1', words[(k * SHARES + share) % len(words)])))
    types = [w for w in bound_types() if w not in 'ABCDEFGH']
    for k in range(-(-len(types) // SHARES)):
        for t, s in zip(('T1', 'V1', 'P1'), SWEPT_TYPES.strip('\n').split('\n---\n')):
            out.append((s, (t, types[(k * SHARES + share) % len(types)])))
    return out


SHARES = 7


def program(dep, rng, share=0):
    """-> (source, [(shape number, names)])"""
    o = ['#![allow(dead_code, non_camel_case_types, unused, clippy::all)]']
    calls, chosen = [], []
    for i, (shape, swept) in enumerate(definitions(share)):
        ns = names(shape, rng, swept)
        chosen.append((i, ns))
        text = re.sub(r'@([TPfVcKlgx]\d)', lambda m: ns[m.group(1)], shape).replace('@d::', f'::{dep}::')
        body, runs = [], []
        for l in text.split('\n'):
            if l.startswith('    '):
                runs.append([x.strip() for x in l.split('|')])
            else:
                body.append(l)
        traits = runs[0][0]
        der = f'#[derive(Debug, Clone, ::{dep}::DekuRead, ::{dep}::DekuWrite' + (f', ::{dep}::DekuSize' if 'S' in traits else '') + ')]'
        out = [f'mod shape{i} {{', f'    pub mod run {{ pub use super::super::*; }}']
        pend = []
        for l in body:
            if l.startswith('MACRO '):
                m = re.fullmatch(r'MACRO (\S+) \((.*?)\) \{ (.*) \} \((.*)\)', l)
                out.append(f'macro_rules! {m.group(1)} {{ ({m.group(2)}) => {{ {der} {m.group(3)} }} }}')
                out.append(f'{m.group(1)}!({m.group(4)});')
            elif l.startswith('TEMP '):
                out.append(f'#[::{dep}::deku_derive(DekuRead, DekuWrite)] #[derive(Debug, Clone)] {l[5:]}')
            elif l.startswith('#'):
                pend.append(l)
            elif re.match(r'(struct|enum) ', l):
                # attributes of deku come after the derive which gives them meaning
                out += [der] + pend + [l]
                pend = []
            else:
                out += pend + [l]
                pend = []
        out.append('pub fn observe_all() {')
        for j, r in enumerate(runs):
            x = {'S': '', 'I': '', 'U': ''}
            size = f'Some((<{r[1]} as ::{dep}::DekuSize>::SIZE_BITS, <{r[1]} as ::{dep}::DekuSize>::SIZE_BYTES))' if 'S' in r[0] else 'None'
            out.append(f'    super::observe!("{i}.{j}", {r[1]}, {size}, ' + (f'|it: &{r[1]}| format!("{{:?}}", ::{dep}::DekuEnumExt::<{r[2]}>::deku_id(it).ok())' if 'I' in r[0] else f'|_it: &{r[1]}| String::new()') + ');')
        out += ['}', '}']
        o += out
        calls.append(f'    shape{i}::observe_all();')
    o.insert(1, RUN.replace('@d', dep))
    o += ['fn main() {'] + calls + ['}']
    return '\n'.join(o) + '\n', chosen


RUN = r'''
use std::convert::{TryFrom, TryInto};
pub fn inputs() -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut x = 0x2545_f491_4f6c_dd1du64;
    for n in 0..160usize {
        let len = [0, 1, 2, 3, 4, 6, 9, 14, 24, 36, 60][n % 11];
        v.push((0..len).map(|i| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; if i < 3 && n % 2 == 0 { (x % 8) as u8 } else if i < 2 && n % 4 == 1 { (x % 4) as u8 * i as u8 } else { x as u8 } }).collect());
    }
    v
}
pub fn class(e: &::@d::DekuError) -> String { format!("{e:?}").chars().take_while(|c| c.is_alphanumeric()).collect() }
macro_rules! observe {
    ($tag:expr, $t:ty, $size:expr, $id:expr) => {{
        let size: ::std::option::Option<(usize, ::std::option::Option<usize>)> = $size;
        println!("{} size {:?}", $tag, size);
        for (n, data) in run::inputs().iter().enumerate() {
            for off in [0usize, 3] {
                match <$t as ::@d::DekuContainerRead>::from_bytes((&data[..], off)) {
                    Ok(((rest, o), mut it)) => {
                        let id = ($id)(&it);
                        let w = <$t as ::@d::DekuContainerWrite>::to_bytes(&it).map_err(|e| run::class(&e));
                        let u = <$t as ::@d::DekuUpdate>::update(&mut it).map_err(|e| run::class(&e));
                        let w2 = <$t as ::@d::DekuContainerWrite>::to_bytes(&it).map_err(|e| run::class(&e));
                        println!("{} {n} {off}: {} {o} {id} {w:?} {u:?} {w2:?}", $tag, rest.len());
                    }
                    Err(e) => println!("{} {n} {off}: {}", $tag, run::class(&e)),
                }
            }
            let mut c = std::io::Cursor::new(data.clone());
            let r = <$t as ::@d::DekuContainerRead>::from_reader((&mut c, 0)).map(|(n, it)| (n, <Vec<u8> as std::convert::TryFrom<$t>>::try_from(it).map_err(|e| run::class(&e)))).map_err(|e| run::class(&e));
            let t = <$t as std::convert::TryFrom<&[u8]>>::try_from(&data[..]).map(|it| <$t as ::@d::DekuContainerWrite>::to_bits(&it).map(|b| b.len()).map_err(|e| run::class(&e))).map_err(|e| run::class(&e));
            println!("{} {n} io: {r:?} {t:?} {}", $tag, c.position());
        }
    }};
}
pub(crate) use observe;
'''


def rng_of(seed):
    r = random.Random(seed)
    r.pools = harvest()
    return r
