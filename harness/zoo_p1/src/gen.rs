// @generated by gen_zoo.py
#![allow(clippy::all, unused_parens, unused_variables, dead_code, non_camel_case_types, non_snake_case, unused_imports, unused_mut)]
use deku::prelude::*;
use std::sync::OnceLock;
use vcore::custom;
use vcore::model::*;
use vcore::ops::{deku_id, ops, Entry};
use vcore::val::{Conv, Val};

#[derive(DekuRead, DekuWrite)]
pub struct P1 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)")]
    pub f4: [u32; 2],
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_before = "1")]
    pub f6: [u32; 2],
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_after = "3")]
    pub f8: [u32; 2],
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)")]
    pub f10: [u32; 2],
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip)]
    pub f12: [u32; 2],
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P1 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P1 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P1() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P1", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f4", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("f6", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("f8", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f10", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, ..FieldD::new("f12", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P4 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", bit_order = "msb")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big")]
    pub f6: std::num::NonZeroU32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big", cond = "((*k as i128) != 1)")]
    pub f8: Option<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", pad_bytes_after = "((*k as i128) % 2)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big", pad_bytes_before = "1")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P4 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P4 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P4() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P4", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("f6", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f8", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bytes_before: Some(l(1)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P7 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", count = "k")]
    pub f2: Vec<u8>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big", bytes = 3, bytes_read = "((*k as i128) * 3)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big", count = "k")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", writer = "custom::wr_wide(deku::writer, *f10, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = 11)]
    pub f12: Box<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P7 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P7 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P7() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P7", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(1)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), writer: Some(custom::m_wr_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P10 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 11, skip, default = "(6) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, skip(read))]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bits = 11, skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = 11, skip(write))]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = 11, skip(write), cond = "((*k as i128) < 2)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P10 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P10 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P10() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P10", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), skip: Skip::Read, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), skip: Skip::Write, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P13 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_after = "3")]
    pub f2: Box<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)")]
    pub f4: Box<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, count = "k")]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", cond = "((*k as i128) >= 2)")]
    pub f8: Box<[u32]>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", cond = "((*k as i128) < 2)")]
    pub f10: Box<[u32]>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", count = "k")]
    pub f12: Box<[u32]>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P13 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P13 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P13() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P13", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Count(X::F(1)), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P16 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, cond = "((*k as i128) < 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3)]
    pub f4: i32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", bytes = 3)]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, map = "custom::map_wide")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bytes = "3", cond = "((*k as i128) != 1)")]
    pub f10: Option<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bytes = "3", pad_bytes_after = "((*k as i128) % 2)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P16 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P16 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P16() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P16", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(3)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f10", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P19 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, update = "((self.k as i128) + 7)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, count = "k")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, writer = "custom::wr_wide(deku::writer, *f6, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as i32")]
    pub f8: i32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", map = "custom::map_wide")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P19 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P19 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P19() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P19", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), writer: Some(custom::m_wr_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::Add, X::F(1), l(1)))), ..FieldD::new("f8", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P22 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", cond = "((*k as i128) >= 2)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) < 2)")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", cond = "((*k as i128) < 2)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(cond = "((*k as i128) < 2)", map = "custom::map_wide")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "msb", cond = "((*k as i128) < 2)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P22 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P22 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P22() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P22", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P25 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) < 2)", writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little")]
    pub f4: i32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)")]
    pub f8: i32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_before = "1")]
    pub f10: i32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_after = "3")]
    pub f12: i32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P25 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P25 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P25() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P25", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f8", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("f10", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("f12", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P28 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", cond = "((*k as i128) != 1)")]
    pub f2: Option<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", pad_bytes_after = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", pad_bytes_before = "1")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", pad_bits_after = "3")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", pad_bits_before = "((*k as i128) + 1)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", skip, default = "(6) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P28 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P28 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P28() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P28", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f2", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), pad_bytes_before: Some(l(1)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), pad_bits_after: Some(l(3)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P31 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", count = "k")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", map = "custom::map_wide")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", map = "custom::map_wide")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_before = "1", map = "custom::map_wide")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_after = "3", map = "custom::map_wide")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P31 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P31 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P31() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P31", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P34 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", pad_bytes_before = "1")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", pad_bits_after = "3")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", pad_bits_before = "((*k as i128) + 1)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "msb", skip, default = "(6) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "msb", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "msb", skip(read))]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P34 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P34 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P34() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P34", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), pad_bytes_before: Some(l(1)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), pad_bits_after: Some(l(3)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), skip: Skip::Read, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P37 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_before = "1")]
    pub f2: std::num::NonZeroU32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_after = "3")]
    pub f4: std::num::NonZeroU32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)")]
    pub f6: std::num::NonZeroU32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", cond = "((*k as i128) != 1)")]
    pub f8: Option<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_before = "1", cond = "((*k as i128) != 1)")]
    pub f10: Option<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_after = "3", cond = "((*k as i128) != 1)")]
    pub f12: Option<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P37 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P37 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P37() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P37", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("f2", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("f4", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f6", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f8", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f10", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f12", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P40 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)")]
    pub f2: (u32, u32,),
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", pad_bytes_after = "((*k as i128) % 2)")]
    pub f8: Vec<u8>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = "24", bits_read = "((*k as i128) * 24)", pad_bytes_after = "((*k as i128) % 2)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bytes = "3", bytes_read = "((*k as i128) * 3)", pad_bytes_after = "((*k as i128) % 2)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P40 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P40 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P40() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P40", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P43 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_before = "1")]
    pub f2: (u32, u32,),
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_before = "1", update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", pad_bytes_before = "1")]
    pub f8: Vec<u8>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = "24", bits_read = "((*k as i128) * 24)", pad_bytes_before = "1")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bytes = "3", bytes_read = "((*k as i128) * 3)", pad_bytes_before = "1")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P43 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P43 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P43() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P43", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Count(X::F(1)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), pad_bytes_before: Some(l(1)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bytes_before: Some(l(1)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P46 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_after = "3", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_after = "3", update = "((self.k as i128) + 7)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", pad_bits_after = "3")]
    pub f6: Vec<u8>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", pad_bits_after = "3")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bytes = "3", bytes_read = "((*k as i128) * 3)", pad_bits_after = "3")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", pad_bits_after = "3")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P46 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P46 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P46() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P46", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), pad_bits_after: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bits_after: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P49 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", pad_bits_before = "((*k as i128) + 1)")]
    pub f2: Vec<u8>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", pad_bits_before = "((*k as i128) + 1)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", pad_bits_before = "((*k as i128) + 1)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", pad_bits_before = "((*k as i128) + 1)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", writer = "custom::wr_wide(deku::writer, *f10, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip, default = "(6) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P49 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P49 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P49() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P49", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Count(X::F(1)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), writer: Some(custom::m_wr_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), reader: Some(custom::m_rd_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P52 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", skip)]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", skip)]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", skip)]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip, default = "(6) as u32", writer = "custom::wr_wide(deku::writer, *f8, *k)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip, cond = "((*k as i128) < 2)")]
    pub f10: (u32, u32,),
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip, cond = "((*k as i128) < 2)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P52 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P52 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P52() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P52", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::All, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), skip: Skip::All, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), writer: Some(custom::m_wr_wide), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, ..FieldD::new("f10", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::All, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P55 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", skip(read))]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)")]
    pub f6: (u32, u32,),
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip(read), cond = "((*k as i128) != 1)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", update = "((self.k as i128) + 7)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", skip(read), cond = "((*k as i128) != 1)")]
    pub f12: Vec<u8>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P55 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P55 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P55() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P55", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, ..FieldD::new("f6", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::Read, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P58 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)")]
    pub f2: (u32, u32,),
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip(write), cond = "((*k as i128) < 2)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", skip(write), cond = "((*k as i128) < 2)")]
    pub f8: Vec<u8>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = "24", bits_read = "((*k as i128) * 24)", skip(write), cond = "((*k as i128) < 2)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bytes = "3", bytes_read = "((*k as i128) * 3)", skip(write), cond = "((*k as i128) < 2)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P58 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P58 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P58() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P58", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::Write, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::Write, ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), skip: Skip::Write, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P61 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) < 2)", assert = "((*f6 as i128) != 9)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P61 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P61 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P61() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P61", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), assert: Some(b(Bop::Ne, X::F(2), l(9))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), assert: Some(b(Bop::Ne, X::F(4), l(9))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert: Some(b(Bop::Ne, X::F(6), l(9))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P64 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_before = "1", assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_after = "3", assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", assert = "((*f6 as i128) != 9)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P64 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P64 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P64() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P64", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), assert: Some(b(Bop::Ne, X::F(2), l(9))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), assert: Some(b(Bop::Ne, X::F(4), l(9))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), assert: Some(b(Bop::Ne, X::F(6), l(9))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P67 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(assert = "((*f4 as i128) != 9)", update = "((self.k as i128) + 7)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(assert = "((*f6 as i128) != 9)", writer = "custom::wr_wide(deku::writer, *f6, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P67 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P67 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P67() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P67", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert: Some(b(Bop::Ne, X::F(2), l(9))), skip: Skip::Write, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(4), l(9))), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(6), l(9))), writer: Some(custom::m_wr_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct P70 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as u32", magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P70 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P70 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P70() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P70", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), magic: Some(b"\xa5\x3c"), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P73 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P73 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P73 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P73() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P73", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::Read, hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P76 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(magic = b"\xa5\x3c")]
    pub f2: Box<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", magic = b"\xa5\x3c")]
    pub f4: Box<[u32]>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P76 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P76 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P76() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P76", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P79 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(magic = b"\xa5\x3c")]
    pub f2: std::num::NonZeroU32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) != 1)", magic = b"\xa5\x3c")]
    pub f4: Option<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P79 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P79 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P79() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P79", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P82 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P82 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P82 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P82() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P82", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P85 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", magic = b"\xa5\x3c")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", magic = b"\xa5\x3c")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", magic = b"\xa5\x3c")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P85 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P85 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P85() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P85", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P88 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", cond = "((*k as i128) < 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb")]
    pub f4: i32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", bit_order = "lsb")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "lsb", map = "custom::map_wide")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb", cond = "((*k as i128) != 1)")]
    pub f10: Option<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "lsb", pad_bytes_after = "((*k as i128) % 2)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P88 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P88 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P88() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P88", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f10", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P91 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", update = "((self.k as i128) + 7)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", count = "k")]
    pub f4: Vec<u8>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "lsb", count = "k")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb", writer = "custom::wr_wide(deku::writer, *f10, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    pub f12: u8,
}
impl Conv for P91 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P91 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]) } }
}
pub fn d_P91() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P91", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), writer: Some(custom::m_wr_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f12", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P94 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P94 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P94 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P94() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P94", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P97 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", seek_from_current = "((*k as i128) % 2)")]
    pub f2: Box<[u32]>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", seek_from_end = "-10")]
    pub f4: Box<[u32]>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", seek_from_start = "2")]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P97 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P97 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P97() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P97", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P100 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) < 2)", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) < 2)", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) < 2)", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P100 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P100 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P100() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P100", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P103 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)", map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_end = "-10", map = "custom::map_wide")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_start = "2", map = "custom::map_wide")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P103 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P103 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P103() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P103", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P106 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) != 1)", seek_from_current = "((*k as i128) % 2)")]
    pub f2: Option<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) != 1)", seek_from_end = "-10")]
    pub f4: Option<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) != 1)", seek_from_start = "2")]
    pub f6: Option<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P106 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P106 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P106() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P106", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P109 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_after = "3", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_after = "3", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P109 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P109 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P109() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P109", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P112 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, default = "(6) as u32", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", seek_from_current = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), seek_from_current = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P112 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P112 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P112() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P112", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P115 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", seek_from_current = "((*k as i128) % 2)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", seek_from_current = "((*k as i128) % 2)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", seek_from_current = "((*k as i128) % 2)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P115 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P115 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P115() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P115", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P118 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_end = "-10")]
    pub f4: (u32, u32,),
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", seek_from_end = "-10")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P118 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P118 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P118() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P118", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P121 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, default = "(6) as u32", seek_from_start = "2")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", seek_from_start = "2")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P121 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P121 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P121() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P121", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P124 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", seek_from_start = "2")]
    pub f2: Vec<u8>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", seek_from_start = "2")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", seek_from_start = "2")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P124 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P124 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P124() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P124", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P127 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(magic = b"\xa5\x3c", seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(magic = b"\xa5\x3c", seek_from_start = "2")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    pub f6: u8,
}
impl Conv for P127 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P127 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_P127() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P127", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P130 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)")]
    pub f4: [u32; 2],
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_before = "1")]
    pub f6: [u32; 2],
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_after = "3")]
    pub f8: [u32; 2],
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)")]
    pub f10: [u32; 2],
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip)]
    pub f12: [u32; 2],
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P130 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P130 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P130() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P130", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f4", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("f6", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("f8", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f10", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, ..FieldD::new("f12", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P133 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", bit_order = "lsb")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", map = "custom::map_wide")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big", cond = "((*k as i128) != 1)")]
    pub f6: Option<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big", pad_bytes_after = "((*k as i128) % 2)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", pad_bytes_before = "1")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big", pad_bits_after = "3")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P133 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P133 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P133() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P133", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f6", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bytes_before: Some(l(1)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bits_after: Some(l(3)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P136 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", bytes = 3, bytes_read = "((*k as i128) * 3)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big", count = "k")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big", writer = "custom::wr_wide(deku::writer, *f8, *k)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = 11)]
    pub f10: Box<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = 11, count = "k")]
    pub f12: Box<[u32]>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P136 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P136 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P136() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P136", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), writer: Some(custom::m_wr_wide), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), lim: Lim::Count(X::F(1)), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P139 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 11, skip, default = "(6) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, skip(read))]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bits = 11, skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = 11, skip(write))]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = 11, skip(write), cond = "((*k as i128) < 2)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P139 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P139 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P139() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P139", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), skip: Skip::Read, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), skip: Skip::Write, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P142 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_after = "3")]
    pub f2: Box<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)")]
    pub f4: Box<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, count = "k")]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", cond = "((*k as i128) >= 2)")]
    pub f8: Box<[u32]>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", cond = "((*k as i128) < 2)")]
    pub f10: Box<[u32]>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", count = "k")]
    pub f12: Box<[u32]>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P142 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P142 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P142() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P142", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Count(X::F(1)), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P145 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, cond = "((*k as i128) < 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3)]
    pub f4: i32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", bytes = 3)]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "lsb", bytes = 3)]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bytes = "3", map = "custom::map_wide")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bytes = "3")]
    pub f12: std::num::NonZeroU32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P145 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P145 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P145() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P145", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(3)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bytes: Some(l(3)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("f12", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P148 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3)]
    pub f2: (u32, u32,),
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, count = "k")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bytes = "3", writer = "custom::wr_wide(deku::writer, *f10, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as i32")]
    pub f12: i32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P148 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P148 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P148() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P148", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), writer: Some(custom::m_wr_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::Add, X::F(1), l(1)))), ..FieldD::new("f12", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P151 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", cond = "((*k as i128) >= 2)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", cond = "((*k as i128) >= 2)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", cond = "((*k as i128) >= 2)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", writer = "custom::wr_wide(deku::writer, *f8, *k)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(cond = "((*k as i128) < 2)")]
    pub f10: i32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", cond = "((*k as i128) < 2)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P151 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P151 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P151() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P151", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), writer: Some(custom::m_wr_wide), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f10", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P154 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", cond = "((*k as i128) < 2)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", cond = "((*k as i128) < 2)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) < 2)", writer = "custom::wr_wide(deku::writer, *f6, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little")]
    pub f8: i32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb")]
    pub f10: i32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)")]
    pub f12: i32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P154 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P154 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P154() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P154", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), writer: Some(custom::m_wr_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("f8", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f10", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f12", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P157 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", cond = "((*k as i128) != 1)")]
    pub f4: Option<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", pad_bytes_after = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", pad_bytes_before = "1")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", pad_bits_after = "3")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", pad_bits_before = "((*k as i128) + 1)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P157 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P157 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P157() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P157", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f4", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), pad_bytes_before: Some(l(1)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), pad_bits_after: Some(l(3)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P160 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", bytes = 3, bytes_read = "((*k as i128) * 3)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", count = "k")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", writer = "custom::wr_wide(deku::writer, *f6, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "lsb", map = "custom::map_wide")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb", cond = "((*k as i128) != 1)")]
    pub f10: Option<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "lsb", pad_bytes_after = "((*k as i128) % 2)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P160 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P160 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P160() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P160", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), writer: Some(custom::m_wr_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f10", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P163 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", update = "((self.k as i128) + 7)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", count = "k")]
    pub f4: Vec<u8>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "lsb", bytes = 3, bytes_read = "((*k as i128) * 3)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb", count = "k")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "lsb", writer = "custom::wr_wide(deku::writer, *f12, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P163 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P163 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P163() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P163", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), writer: Some(custom::m_wr_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P166 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(map = "custom::map_wide", writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", cond = "((*k as i128) != 1)")]
    pub f4: Option<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_before = "1", cond = "((*k as i128) != 1)")]
    pub f6: Option<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_after = "3", cond = "((*k as i128) != 1)")]
    pub f8: Option<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", cond = "((*k as i128) != 1)")]
    pub f10: Option<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_before = "1", pad_bytes_after = "((*k as i128) % 2)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P166 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P166 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P166() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P166", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f4", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f6", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f8", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f10", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P169 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", update = "((self.k as i128) + 7)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", pad_bytes_after = "((*k as i128) % 2)")]
    pub f4: Vec<u8>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", pad_bytes_after = "((*k as i128) % 2)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", pad_bytes_after = "((*k as i128) % 2)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", pad_bytes_after = "((*k as i128) % 2)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", writer = "custom::wr_wide(deku::writer, *f12, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P169 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P169 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P169() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P169", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), writer: Some(custom::m_wr_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P172 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_before = "1", update = "((self.k as i128) + 7)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", pad_bytes_before = "1")]
    pub f4: Vec<u8>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", pad_bytes_before = "1")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", pad_bytes_before = "1")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", pad_bytes_before = "1")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_before = "1", writer = "custom::wr_wide(deku::writer, *f12, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P172 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P172 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P172() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P172", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), pad_bytes_before: Some(l(1)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bytes_before: Some(l(1)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), writer: Some(custom::m_wr_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P175 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", pad_bits_after = "3")]
    pub f2: Vec<u8>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", pad_bits_after = "3")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", pad_bits_after = "3")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", pad_bits_after = "3")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_after = "3", writer = "custom::wr_wide(deku::writer, *f10, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P175 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P175 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P175() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P175", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), pad_bits_after: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bits_after: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), writer: Some(custom::m_wr_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), reader: Some(custom::m_rd_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P178 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", pad_bits_before = "((*k as i128) + 1)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", pad_bits_before = "((*k as i128) + 1)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", writer = "custom::wr_wide(deku::writer, *f6, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip, default = "(6) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip(read), reader = "custom::rd_wide(deku::reader, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P178 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P178 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P178() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P178", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), writer: Some(custom::m_wr_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), reader: Some(custom::m_rd_wide), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), reader: Some(custom::m_rd_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, reader: Some(custom::m_rd_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P181 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", skip)]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip, default = "(6) as u32", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip, cond = "((*k as i128) < 2)")]
    pub f6: (u32, u32,),
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip, cond = "((*k as i128) < 2)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", update = "((self.k as i128) + 7)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", skip, cond = "((*k as i128) < 2)")]
    pub f12: Vec<u8>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P181 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P181 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P181() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P181", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, ..FieldD::new("f6", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::All, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P184 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)")]
    pub f2: (u32, u32,),
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip(read), cond = "((*k as i128) != 1)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", skip(read), cond = "((*k as i128) != 1)")]
    pub f8: Vec<u8>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = "24", bits_read = "((*k as i128) * 24)", skip(read), cond = "((*k as i128) != 1)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bytes = "3", bytes_read = "((*k as i128) * 3)", skip(read), cond = "((*k as i128) != 1)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P184 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P184 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P184() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P184", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::Read, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::Read, ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), skip: Skip::Read, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P187 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", update = "((self.k as i128) + 7)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", skip(write), cond = "((*k as i128) < 2)")]
    pub f4: Vec<u8>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", skip(write), cond = "((*k as i128) < 2)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", skip(write), cond = "((*k as i128) < 2)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", skip(write), cond = "((*k as i128) < 2)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", writer = "custom::wr_wide(deku::writer, *f12, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P187 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P187 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P187() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P187", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::Write, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::Write, ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), skip: Skip::Write, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, writer: Some(custom::m_wr_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P190 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) < 2)", assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(assert = "((*f6 as i128) != 9)")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P190 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P190 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P190() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P190", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), assert: Some(b(Bop::Ne, X::F(2), l(9))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert: Some(b(Bop::Ne, X::F(4), l(9))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(6), l(9))), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P193 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(assert = "((*f4 as i128) != 9)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip, default = "(6) as u32", assert = "((*f6 as i128) != 9)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P193 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P193 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P193() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P193", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), assert: Some(b(Bop::Ne, X::F(2), l(9))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(4), l(9))), reader: Some(custom::m_rd_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(6), l(9))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P196 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert = "((*f2 as i128) != 9)", writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P196 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P196 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P196() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P196", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(2), l(9))), writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P199 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P199 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P199 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P199() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P199", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P202 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as u32", update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P202 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P202 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P202() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P202", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::Write, hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::Write, hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P205 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(magic = b"\xa5\x3c")]
    pub f6: Box<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P205 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P205 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P205() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P205", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P208 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(magic = b"\xa5\x3c", map = "custom::map_wide")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) != 1)", magic = b"\xa5\x3c")]
    pub f6: Option<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P208 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P208 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P208() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P208", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P211 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P211 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P211 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P211() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P211", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P214 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", magic = b"\xa5\x3c")]
    pub f2: Vec<u8>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", magic = b"\xa5\x3c")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", magic = b"\xa5\x3c")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P214 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P214 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P214() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P214", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P217 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", cond = "((*k as i128) < 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", bit_order = "msb")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "msb", map = "custom::map_wide")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "msb", cond = "((*k as i128) != 1)")]
    pub f12: Option<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P217 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P217 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P217() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P217", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f12", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P220 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", update = "((self.k as i128) + 7)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", count = "k")]
    pub f6: Vec<u8>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "msb", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "msb", bytes = "3", bytes_read = "((*k as i128) * 3)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "msb", count = "k")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P220 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P220 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P220() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P220", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P223 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P223 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P223 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P223() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P223", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P226 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 11, seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P226 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P226 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P226() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P226", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P229 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P229 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P229 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P229() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P229", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P232 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)")]
    pub f2: i32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_end = "-10")]
    pub f4: i32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_start = "2")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P232 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P232 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P232() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P232", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P235 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)", map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_end = "-10", map = "custom::map_wide")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_start = "2", map = "custom::map_wide")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P235 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P235 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P235() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P235", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P238 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_before = "1", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_before = "1", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P238 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P238 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P238() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P238", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P241 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_end = "-10", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_start = "2", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P241 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P241 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P241() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P241", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), reader: Some(custom::m_rd_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), reader: Some(custom::m_rd_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), reader: Some(custom::m_rd_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P244 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)")]
    pub f2: (u32, u32,),
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", seek_from_current = "((*k as i128) % 2)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", seek_from_current = "((*k as i128) % 2)")]
    pub f6: Vec<u8>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P244 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P244 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P244() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P244", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P247 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), seek_from_end = "-10")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P247 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P247 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P247() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P247", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P250 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", seek_from_end = "-10")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", seek_from_end = "-10")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_end = "-10", writer = "custom::wr_wide(deku::writer, *f6, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P250 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P250 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P250() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P250", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), writer: Some(custom::m_wr_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P253 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_start = "2")]
    pub f2: (u32, u32,),
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", seek_from_start = "2")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(update = "((self.k as i128) + 7)", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P253 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P253 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P253() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P253", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P256 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert = "((*f2 as i128) != 9)", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as u32", seek_from_current = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    pub f6: u8,
}
impl Conv for P256 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P256 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_P256() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P256", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(2), l(9))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P259 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3)]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)")]
    pub f4: [u32; 2],
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3")]
    pub f6: [u32; 2],
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip)]
    pub f8: [u32; 2],
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", bits = 11)]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big", bytes = "3")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P259 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P259 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P259() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P259", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f4", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("f6", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, ..FieldD::new("f8", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(11)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(3)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P262 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 11)]
    pub f2: i32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", bits = 11)]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", bits = 11)]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bits = 11, map = "custom::map_wide")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = 11, skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = 11, skip(write))]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P262 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P262 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P262() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P262", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(11)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(11)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), skip: Skip::Write, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P265 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, skip(read))]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, skip(write), cond = "((*k as i128) < 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3)]
    pub f6: (u32, u32,),
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, writer = "custom::wr_wide(deku::writer, *f8, *k)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_before = "1", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P265 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P265 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P265() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P265", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), skip: Skip::Read, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("f6", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), writer: Some(custom::m_wr_wide), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P268 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", skip(write))]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", endian = "little")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", count = "k")]
    pub f10: Vec<u8>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", bits = "24", bits_read = "((*k as i128) * 24)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P268 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P268 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P268() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P268", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P271 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip(read))]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip(write), cond = "((*k as i128) < 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)")]
    pub f6: (u32, u32,),
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", pad_bytes_after = "((*k as i128) % 2)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", writer = "custom::wr_wide(deku::writer, *f10, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", pad_bytes_before = "1")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P271 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P271 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P271() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P271", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), skip: Skip::Read, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f6", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), writer: Some(custom::m_wr_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), pad_bytes_before: Some(l(1)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P274 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(reader = "custom::rd_wide(deku::reader, *k)", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip)]
    pub f6: (u32, u32,),
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", skip)]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip, default = "(6) as u32", writer = "custom::wr_wide(deku::writer, *f10, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", skip, cond = "((*k as i128) < 2)")]
    pub f12: Vec<u8>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P274 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P274 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P274() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P274", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, reader: Some(custom::m_rd_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { reader: Some(custom::m_rd_wide), writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, ..FieldD::new("f6", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), skip: Skip::All, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), writer: Some(custom::m_wr_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P277 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) < 2)", assert = "((*f6 as i128) != 9)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P277 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P277 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P277() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P277", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), assert: Some(b(Bop::Ne, X::F(2), l(9))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), assert: Some(b(Bop::Ne, X::F(4), l(9))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert: Some(b(Bop::Ne, X::F(6), l(9))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P280 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as u32", writer = "custom::wr_wide(deku::writer, *f6, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P280 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P280 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P280() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P280", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::Read, hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::Write, hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), writer: Some(custom::m_wr_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P283 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, default = "(6) as u32", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(update = "((self.k as i128) + 7)", magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    pub f6: u8,
}
impl Conv for P283 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P283 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_P283() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P283", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P286 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", bytes = 3, bytes_read = "((*k as i128) * 3)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", count = "k")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    pub f6: u8,
}
impl Conv for P286 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P286 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_P286() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P286", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P289 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", seek_from_current = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P289 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P289 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P289() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P289", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P292 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", seek_from_current = "((*k as i128) % 2)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", seek_from_current = "((*k as i128) % 2)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P292 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P292 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P292() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P292", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P295 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_start = "2", writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P295 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P295 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P295() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P295", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P298 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", bit_order = "msb")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", cond = "((*k as i128) != 1)")]
    pub f4: Option<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big", pad_bytes_after = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big", pad_bits_after = "3")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", skip, default = "(6) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big", update = "((self.k as i128) + 7)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P298 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P298 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P298() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P298", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f4", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bits_after: Some(l(3)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P301 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", skip(write), cond = "((*k as i128) < 2)")]
    pub f2: Box<[u32]>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, cond = "((*k as i128) < 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3)]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", bytes = 3)]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bytes = "3", map = "custom::map_wide")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "msb", bytes = "3")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P301 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P301 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P301() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P301", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(3)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bytes: Some(l(3)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P304 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_after = "3")]
    pub f2: i32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip, default = "(6) as i32")]
    pub f4: i32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(update = "((self.k as i128) + 7)")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", bit_order = "msb")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", cond = "((*k as i128) != 1)")]
    pub f10: Option<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", pad_bytes_after = "((*k as i128) % 2)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P304 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P304 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P304() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P304", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(l(6))), ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f10", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P307 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", skip, default = "(6) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", update = "((self.k as i128) + 7)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "msb", bytes = 3, bytes_read = "((*k as i128) * 3)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip(write))]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P307 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P307 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P307() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P307", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P310 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", pad_bits_after = "3")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip(read))]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip(write), cond = "((*k as i128) < 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)")]
    pub f8: (u32, u32,),
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bytes = "3", bytes_read = "((*k as i128) * 3)", pad_bits_before = "((*k as i128) + 1)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", writer = "custom::wr_wide(deku::writer, *f12, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P310 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P310 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P310() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P310", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), skip: Skip::Read, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f8", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), writer: Some(custom::m_wr_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P313 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip(write), cond = "((*k as i128) < 2)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", skip(write), cond = "((*k as i128) < 2)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    pub f6: u8,
}
impl Conv for P313 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P313 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_P313() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P313", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::Write, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::Write, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P316 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) < 2)", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P316 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P316 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P316() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P316", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P319 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P319 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P319 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P319() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P319", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P322 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", pad_bytes_before = "1")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", pad_bits_before = "((*k as i128) + 1)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "lsb", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb", bits = "24", bits_read = "((*k as i128) * 24)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "lsb", bytes = "3", bytes_read = "((*k as i128) * 3)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P322 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P322 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P322() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P322", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), pad_bytes_before: Some(l(1)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P325 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) < 2)", seek_from_start = "2")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_start = "2")]
    pub f4: i32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P325 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P325 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P325() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P325", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P328 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)")]
    pub f2: (u32, u32,),
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", seek_from_current = "((*k as i128) % 2)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)", writer = "custom::wr_wide(deku::writer, *f6, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P328 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P328 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P328() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P328", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), writer: Some(custom::m_wr_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P331 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", seek_from_start = "2")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P331 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P331 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P331() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P331", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P334 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read))]
    pub f4: [u32; 2],
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)")]
    pub f6: [u32; 2],
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big", bits = 11)]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", count = "k")]
    pub f10: Box<[u32]>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big", bytes = "3")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P334 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P334 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P334() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P334", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, ..FieldD::new("f4", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f6", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(11)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(3)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P337 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 11, pad_bytes_before = "1")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, pad_bits_before = "((*k as i128) + 1)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bits = 11, until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb")]
    pub f10: Box<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", cond = "((*k as i128) < 2)")]
    pub f12: Box<[u32]>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P337 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P337 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P337() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P337", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), pad_bytes_before: Some(l(1)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P340 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", cond = "((*k as i128) < 2)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1")]
    pub f4: i32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as i32")]
    pub f8: i32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", bit_order = "lsb")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", pad_bytes_before = "1")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P340 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P340 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P340() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P340", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::Add, X::F(1), l(4)))), ..FieldD::new("f8", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), pad_bytes_before: Some(l(1)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P343 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", cond = "((*k as i128) != 1)")]
    pub f4: Option<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", cond = "((*k as i128) != 1)")]
    pub f6: Option<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_after = "3", pad_bytes_after = "((*k as i128) % 2)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip, default = "(6) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P343 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P343 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P343() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P343", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f4", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f6", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), reader: Some(custom::m_rd_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P346 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", pad_bits_before = "((*k as i128) + 1)")]
    pub f2: Vec<u8>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", pad_bits_before = "((*k as i128) + 1)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip, default = "(6) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(update = "((self.k as i128) + 7)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip, default = "(6) as u32", update = "((self.k as i128) + 7)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip, cond = "((*k as i128) < 2)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P346 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P346 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P346() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P346", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), reader: Some(custom::m_rd_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), reader: Some(custom::m_rd_wide), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::All, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P349 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", assert = "((*f6 as i128) != 9)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P349 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P349 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P349() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P349", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), assert: Some(b(Bop::Ne, X::F(2), l(9))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), assert: Some(b(Bop::Ne, X::F(4), l(9))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), assert: Some(b(Bop::Ne, X::F(6), l(9))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P352 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(magic = b"\xa5\x3c")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(magic = b"\xa5\x3c")]
    pub f4: Box<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P352 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P352 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P352() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P352", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P355 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", bit_order = "msb")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", bits = 11)]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", count = "k")]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "msb", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", bit_order = "msb")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "msb", pad_bytes_before = "1")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P355 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P355 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P355() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P355", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(11)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), pad_bytes_before: Some(l(1)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P358 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_end = "-10")]
    pub f2: Box<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) < 2)", seek_from_current = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P358 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P358 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P358() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P358", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P361 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_start = "2", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", seek_from_current = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), seek_from_current = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P361 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P361 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P361() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P361", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), reader: Some(custom::m_rd_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P364 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, default = "(6) as u32", seek_from_start = "2")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(update = "((self.k as i128) + 7)", seek_from_start = "2")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    pub f6: u8,
}
impl Conv for P364 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P364 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_P364() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P364", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P367 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P367 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P367 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P367() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P367", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P370 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", skip(write), cond = "((*k as i128) < 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big")]
    pub f4: (u32, u32,),
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big", bytes = 3, bytes_read = "((*k as i128) * 3)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", writer = "custom::wr_wide(deku::writer, *f10, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = 11)]
    pub f12: Box<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P370 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P370 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P370() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P370", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), writer: Some(custom::m_wr_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P373 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", bytes = 3)]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", bytes = 3)]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3)]
    pub f8: std::num::NonZeroU32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bytes = "3", pad_bytes_before = "1")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bytes = "3", pad_bits_before = "((*k as i128) + 1)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P373 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P373 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P373() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P373", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(3)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bytes: Some(l(3)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("f8", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bytes_before: Some(l(1)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P376 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", skip(read))]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", skip(write), cond = "((*k as i128) < 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little")]
    pub f6: (u32, u32,),
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", bytes = "3", bytes_read = "((*k as i128) * 3)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", writer = "custom::wr_wide(deku::writer, *f12, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P376 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P376 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P376() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P376", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), skip: Skip::Read, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("f6", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), writer: Some(custom::m_wr_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P379 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", cond = "((*k as i128) != 1)")]
    pub f2: Option<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", pad_bytes_after = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", pad_bytes_after = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = "24", bits_read = "((*k as i128) * 24)", pad_bytes_after = "((*k as i128) % 2)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P379 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P379 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P379() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P379", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f2", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P382 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip)]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", skip)]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip, cond = "((*k as i128) < 2)")]
    pub f6: (u32, u32,),
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", skip, cond = "((*k as i128) < 2)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", writer = "custom::wr_wide(deku::writer, *f10, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", skip(read))]
    pub f12: Vec<u8>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P382 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P382 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P382() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P382", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::All, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::All, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, ..FieldD::new("f6", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), skip: Skip::All, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), writer: Some(custom::m_wr_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P385 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert = "((*f2 as i128) != 9)", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", assert = "((*f6 as i128) != 9)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P385 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P385 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P385() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P385", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(2), l(9))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(4), l(9))), skip: Skip::Read, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert: Some(b(Bop::Ne, X::F(6), l(9))), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P388 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 11, magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) < 2)", magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(magic = b"\xa5\x3c")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P388 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P388 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P388() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P388", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P391 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", magic = b"\xa5\x3c")]
    pub f2: Vec<u8>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", magic = b"\xa5\x3c")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    pub f6: u8,
}
impl Conv for P391 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P391 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_P391() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P391", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P394 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", bytes = 3, bytes_read = "((*k as i128) * 3)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", count = "k")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    pub f6: u8,
}
impl Conv for P394 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P394 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_P394() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P394", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P397 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", seek_from_start = "2")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) < 2)", seek_from_end = "-10")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P397 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P397 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P397() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P397", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P400 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", seek_from_start = "2")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", seek_from_current = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P400 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P400 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P400() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P400", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P403 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", seek_from_end = "-10")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", seek_from_start = "2")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", seek_from_start = "2")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P403 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P403 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P403() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P403", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct Long8 {
    #[deku(endian = "big")]
    pub n: u16,
    #[deku(count = "n")]
    pub v: Vec<u8>,
    pub z: u8,
}
impl Conv for Long8 {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Long8 { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]), z: Conv::fv(&i[2]) } }
}
pub fn d_Long8() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Long8", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), hint: Hint::OneOf(vec![0, 1, 5, 17, 30, 0, 1, 5, 17, 30, 63, 64, 65, 66, 127, 128, 129, 191, 192, 4095, 4096, 4097, 4159, 4160, 4161, 8190, 8192, 8256, 8257, 12353]), ..FieldD::new("n", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct Long8U {
    #[deku(bits = 3)]
    pub p: u8,
    pub n: u16,
    #[deku(count = "n")]
    pub v: Vec<u8>,
    #[deku(bits = "5")]
    pub q: u8,
}
impl Conv for Long8U {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.n.tv(), self.v.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Long8U { p: Conv::fv(&i[0]), n: Conv::fv(&i[1]), v: Conv::fv(&i[2]), q: Conv::fv(&i[3]) } }
}
pub fn d_Long8U() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Long8U", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::OneOf(vec![0, 1, 5, 17, 30, 0, 1, 5, 17, 30, 63, 64, 65, 66, 127, 128, 129, 191, 192, 4095, 4096, 4097]), ..FieldD::new("n", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(5)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct Long8L {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = 13)]
    pub n: u16,
    #[deku(count = "n")]
    pub v: Vec<u8>,
    #[deku(bits = "5")]
    pub q: u8,
}
impl Conv for Long8L {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.n.tv(), self.v.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Long8L { p: Conv::fv(&i[0]), n: Conv::fv(&i[1]), v: Conv::fv(&i[2]), q: Conv::fv(&i[3]) } }
}
pub fn d_Long8L() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Long8L", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(13)), hint: Hint::OneOf(vec![0, 1, 5, 17, 30, 63, 64, 65, 66, 127, 128, 129, 191, 192]), ..FieldD::new("n", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(5)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct LongB {
    #[deku(endian = "little")]
    pub n: u16,
    #[deku(bytes_read = "n")]
    pub v: Box<[u8]>,
    pub m: u8,
    #[deku(bits_read = "((*m as i128) * 8)")]
    pub w: Vec<u8>,
    pub z: u8,
}
impl Conv for LongB {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv(), self.m.tv(), self.w.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; LongB { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]), m: Conv::fv(&i[2]), w: Conv::fv(&i[3]), z: Conv::fv(&i[4]) } }
}
pub fn d_LongB() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "LongB", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::OneOf(vec![0, 1, 5, 17, 30, 63, 64, 65, 66, 127, 128, 129, 191, 192, 4095, 4096, 4097, 4159, 4160, 4161, 8190, 8192, 8256, 8257, 12353]), ..FieldD::new("n", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bytes(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { hint: Hint::OneOf(vec![0, 1, 5, 17, 30, 63, 64, 65, 66, 127, 128, 129, 191, 192]), ..FieldD::new("m", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(2), l(8))), ..FieldD::new("w", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct Long16 {
    #[deku(endian = "little")]
    pub n: u16,
    #[deku(endian = "big", count = "n")]
    pub v: Vec<u16>,
    pub z: u8,
}
impl Conv for Long16 {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Long16 { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]), z: Conv::fv(&i[2]) } }
}
pub fn d_Long16() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Long16", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::OneOf(vec![0, 1, 5, 17, 30, 63, 64, 65, 66, 127, 128, 129, 191, 192, 2047, 2048, 2049]), ..FieldD::new("n", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct LongA {
    pub a: [u8; 300],
    #[deku(bits = 4)]
    pub p: u8,
    pub b: [u16; 70],
    #[deku(bits = 4)]
    pub q: u8,
}
impl Conv for LongA {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.p.tv(), self.b.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; LongA { a: Conv::fv(&i[0]), p: Conv::fv(&i[1]), b: Conv::fv(&i[2]), q: Conv::fv(&i[3]) } }
}
pub fn d_LongA() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "LongA", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 300)) }, FieldD { bits: Some(l(4)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 70)) }, FieldD { bits: Some(l(4)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct LongPadB {
    #[deku(endian = "little")]
    pub n: u16,
    #[deku(pad_bytes_before = "(*n as i128)")]
    pub a: u8,
    pub m: u8,
    #[deku(pad_bytes_after = "(*m as i128)")]
    pub b: u8,
    pub z: u8,
}
impl Conv for LongPadB {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.m.tv(), self.b.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; LongPadB { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), m: Conv::fv(&i[2]), b: Conv::fv(&i[3]), z: Conv::fv(&i[4]) } }
}
pub fn d_LongPadB() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "LongPadB", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::OneOf(vec![0, 1, 5, 17, 30, 63, 64, 65, 66, 127, 128, 129, 191, 192, 255, 256, 257, 511, 512, 1000]), ..FieldD::new("n", Ty::Int { w: 16, s: false }) }, FieldD { pad_bytes_before: Some(X::F(0)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::OneOf(vec![0, 1, 5, 17, 30, 63, 64, 65, 66, 127, 128, 129, 191, 192]), ..FieldD::new("m", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(X::F(2)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct LongPadb {
    #[deku(endian = "little")]
    pub n: u16,
    #[deku(bits = 3, pad_bits_before = "(*n as i128)")]
    pub a: u8,
    pub m: u8,
    #[deku(pad_bits_after = "(*m as i128)")]
    pub b: u8,
    #[deku(bits = 7)]
    pub z: u8,
}
impl Conv for LongPadb {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.m.tv(), self.b.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; LongPadb { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), m: Conv::fv(&i[2]), b: Conv::fv(&i[3]), z: Conv::fv(&i[4]) } }
}
pub fn d_LongPadb() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "LongPadb", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::OneOf(vec![0, 1, 5, 17, 30, 63, 64, 65, 66, 127, 128, 129, 191, 192, 255, 256, 257, 511, 512, 513, 1000]), ..FieldD::new("n", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(3)), pad_bits_before: Some(X::F(0)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::OneOf(vec![0, 1, 5, 17, 30, 63, 64, 65, 66, 127, 128, 129, 191, 192]), ..FieldD::new("m", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(X::F(2)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct LongSeek {
    #[deku(endian = "little")]
    pub n: u16,
    #[deku(seek_from_current = "(*n as i128)")]
    pub a: u8,
    pub z: u8,
}
impl Conv for LongSeek {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; LongSeek { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), z: Conv::fv(&i[2]) } }
}
pub fn d_LongSeek() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "LongSeek", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::OneOf(vec![0, 1, 5, 17, 30, 63, 64, 65, 66, 127, 128, 129, 191, 192, 4096, 5000]), ..FieldD::new("n", Ty::Int { w: 16, s: false }) }, FieldD { seek: Some(SeekSpec::Current(X::F(0))), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct LongStr {
    pub n: u8,
    #[deku(bytes = "((*n as i128)) as usize")]
    pub s: std::ffi::CString,
    pub z: u8,
}
impl Conv for LongStr {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.s.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; LongStr { n: Conv::fv(&i[0]), s: Conv::fv(&i[1]), z: Conv::fv(&i[2]) } }
}
pub fn d_LongStr() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "LongStr", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::OneOf(vec![1, 5, 17, 30, 63, 64, 65, 66, 127, 128, 129, 191, 192]), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(X::F(0)), ..FieldD::new("s", Ty::CStr) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

pub fn entries() -> Vec<Entry> {
    let mut v = vec![];
    v.push(Entry { name: "P1", tags: &["bits", "order", "pad", "skip", "ty_arr", "ty_int"], decl: d_P1, ops: ops::<P1>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P4", tags: &["bits", "cond", "endian", "map", "order", "pad", "ty_int", "ty_nz", "ty_opt"], decl: d_P4, ops: ops::<P4>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P7", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "endian", "ty_int", "ty_list", "ty_ptr", "writer"], decl: d_P7, ops: ops::<P7>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P10", tags: &["bits", "cond", "default", "skip", "ty_int"], decl: d_P10, ops: ops::<P10>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P13", tags: &["bits", "bytes", "cond", "count", "endian", "pad", "ty_int", "ty_list", "ty_ptr"], decl: d_P13, ops: ops::<P13>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P16", tags: &["bits", "bytes", "cond", "endian", "map", "pad", "ty_int", "ty_opt"], decl: d_P16, ops: ops::<P16>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P19", tags: &["bits", "bytes", "cond", "count", "default", "endian", "map", "ty_int", "ty_list", "update", "writer"], decl: d_P19, ops: ops::<P19>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P22", tags: &["bits", "cond", "count", "default", "endian", "map", "order", "ty_int", "ty_list", "writer"], decl: d_P22, ops: ops::<P22>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P25", tags: &["bits", "cond", "endian", "order", "pad", "ty_int", "writer"], decl: d_P25, ops: ops::<P25>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P28", tags: &["bits", "cond", "default", "endian", "pad", "skip", "ty_int", "ty_opt"], decl: d_P28, ops: ops::<P28>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P31", tags: &["bits", "count", "endian", "map", "order", "pad", "ty_int", "ty_list", "writer"], decl: d_P31, ops: ops::<P31>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P34", tags: &["bits", "cond", "default", "order", "pad", "skip", "ty_int"], decl: d_P34, ops: ops::<P34>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P37", tags: &["bits", "cond", "pad", "ty_int", "ty_nz", "ty_opt"], decl: d_P37, ops: ops::<P37>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P40", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "pad", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P40, ops: ops::<P40>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P43", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "pad", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P43, ops: ops::<P43>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P46", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "pad", "ty_int", "ty_list", "until", "update"], decl: d_P46, ops: ops::<P46>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P49", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "default", "pad", "reader", "skip", "ty_int", "ty_list", "writer"], decl: d_P49, ops: ops::<P49>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P52", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "default", "skip", "ty_int", "ty_list", "ty_tup", "until", "writer"], decl: d_P52, ops: ops::<P52>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P55", tags: &["bits", "cond", "count", "default", "skip", "ty_int", "ty_list", "ty_tup", "until", "update", "writer"], decl: d_P55, ops: ops::<P55>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P58", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "skip", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P58, ops: ops::<P58>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P61", tags: &["assert", "bits", "bytes", "cond", "default", "ty_int"], decl: d_P61, ops: ops::<P61>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P64", tags: &["assert", "bits", "pad", "ty_int"], decl: d_P64, ops: ops::<P64>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P67", tags: &["assert", "bits", "cond", "skip", "ty_int", "update", "writer"], decl: d_P67, ops: ops::<P67>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P70", tags: &["assert_eq", "bits", "endian", "magic", "order", "size", "ty_int"], decl: d_P70, ops: ops::<P70>(), deku_id: None, size_bits: Some((<P70 as DekuSize>::SIZE_BITS, 146)) });
    v.push(Entry { name: "P73", tags: &["assert_eq", "bits", "cond", "default", "skip", "ty_int"], decl: d_P73, ops: ops::<P73>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P76", tags: &["bits", "bytes", "count", "magic", "ty_int", "ty_list", "ty_ptr"], decl: d_P76, ops: ops::<P76>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P79", tags: &["bits", "cond", "magic", "pad", "ty_int", "ty_nz", "ty_opt"], decl: d_P79, ops: ops::<P79>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P82", tags: &["bits", "cond", "default", "magic", "skip", "ty_int"], decl: d_P82, ops: ops::<P82>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P85", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "magic", "ty_int", "ty_list"], decl: d_P85, ops: ops::<P85>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P88", tags: &["bits", "cond", "endian", "map", "order", "pad", "ty_int", "ty_opt"], decl: d_P88, ops: ops::<P88>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P91", tags: &["bits", "bits_read", "count", "order", "ty_int", "ty_list", "update", "writer"], decl: d_P91, ops: ops::<P91>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P94", tags: &["bits", "endian", "seek", "ty_int"], decl: d_P94, ops: ops::<P94>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P97", tags: &["bits", "count", "seek", "ty_int", "ty_list", "ty_ptr"], decl: d_P97, ops: ops::<P97>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P100", tags: &["bits", "cond", "seek", "ty_int"], decl: d_P100, ops: ops::<P100>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P103", tags: &["bits", "map", "seek", "ty_int"], decl: d_P103, ops: ops::<P103>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P106", tags: &["bits", "cond", "seek", "ty_int", "ty_opt"], decl: d_P106, ops: ops::<P106>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P109", tags: &["bits", "pad", "seek", "ty_int"], decl: d_P109, ops: ops::<P109>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P112", tags: &["bits", "cond", "default", "seek", "skip", "ty_int"], decl: d_P112, ops: ops::<P112>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P115", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "seek", "ty_int", "ty_list"], decl: d_P115, ops: ops::<P115>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P118", tags: &["bits", "cond", "seek", "skip", "ty_int", "ty_list", "ty_tup", "until"], decl: d_P118, ops: ops::<P118>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P121", tags: &["bits", "cond", "default", "seek", "skip", "ty_int"], decl: d_P121, ops: ops::<P121>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P124", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "seek", "ty_int", "ty_list"], decl: d_P124, ops: ops::<P124>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P127", tags: &["bits", "magic", "seek", "ty_int"], decl: d_P127, ops: ops::<P127>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P130", tags: &["bits", "endian", "order", "pad", "skip", "ty_arr", "ty_int"], decl: d_P130, ops: ops::<P130>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P133", tags: &["bits", "cond", "endian", "map", "order", "pad", "ty_int", "ty_opt"], decl: d_P133, ops: ops::<P133>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P136", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "endian", "order", "ty_int", "ty_list", "ty_ptr", "writer"], decl: d_P136, ops: ops::<P136>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P139", tags: &["bits", "cond", "default", "endian", "order", "skip", "ty_int"], decl: d_P139, ops: ops::<P139>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P142", tags: &["bits", "bytes", "cond", "count", "endian", "order", "pad", "ty_int", "ty_list", "ty_ptr"], decl: d_P142, ops: ops::<P142>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P145", tags: &["bits", "bytes", "cond", "endian", "map", "order", "ty_int", "ty_nz"], decl: d_P145, ops: ops::<P145>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P148", tags: &["bits", "bytes", "cond", "count", "default", "endian", "order", "ty_int", "ty_list", "ty_tup", "until", "update", "writer"], decl: d_P148, ops: ops::<P148>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P151", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "default", "endian", "order", "ty_int", "ty_list", "writer"], decl: d_P151, ops: ops::<P151>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P154", tags: &["bits", "bytes", "bytes_read", "cond", "count", "endian", "order", "pad", "ty_int", "ty_list", "writer"], decl: d_P154, ops: ops::<P154>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P157", tags: &["bits", "cond", "endian", "map", "order", "pad", "ty_int", "ty_opt"], decl: d_P157, ops: ops::<P157>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P160", tags: &["bits", "bytes", "bytes_read", "cond", "count", "endian", "map", "order", "pad", "ty_int", "ty_list", "ty_opt", "writer"], decl: d_P160, ops: ops::<P160>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P163", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "endian", "order", "ty_int", "ty_list", "update", "writer"], decl: d_P163, ops: ops::<P163>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P166", tags: &["bits", "cond", "endian", "map", "order", "pad", "ty_int", "ty_opt", "writer"], decl: d_P166, ops: ops::<P166>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P169", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "endian", "order", "pad", "ty_int", "ty_list", "update", "writer"], decl: d_P169, ops: ops::<P169>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P172", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "endian", "order", "pad", "ty_int", "ty_list", "update", "writer"], decl: d_P172, ops: ops::<P172>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P175", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "endian", "order", "pad", "reader", "ty_int", "ty_list", "writer"], decl: d_P175, ops: ops::<P175>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P178", tags: &["bits", "bytes", "bytes_read", "cond", "count", "default", "endian", "order", "pad", "reader", "skip", "ty_int", "ty_list", "writer"], decl: d_P178, ops: ops::<P178>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P181", tags: &["bits", "cond", "count", "default", "endian", "order", "skip", "ty_int", "ty_list", "ty_tup", "until", "update", "writer"], decl: d_P181, ops: ops::<P181>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P184", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "default", "endian", "order", "skip", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P184, ops: ops::<P184>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P187", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "endian", "order", "skip", "ty_int", "ty_list", "update", "writer"], decl: d_P187, ops: ops::<P187>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P190", tags: &["assert", "bits", "cond", "default", "endian", "order", "ty_int"], decl: d_P190, ops: ops::<P190>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P193", tags: &["assert", "bits", "default", "endian", "order", "pad", "reader", "skip", "ty_int"], decl: d_P193, ops: ops::<P193>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P196", tags: &["assert", "assert_eq", "bits", "endian", "order", "ty_int", "writer"], decl: d_P196, ops: ops::<P196>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P199", tags: &["assert_eq", "bits", "endian", "order", "pad", "ty_int"], decl: d_P199, ops: ops::<P199>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P202", tags: &["assert_eq", "bits", "cond", "endian", "order", "skip", "ty_int", "update"], decl: d_P202, ops: ops::<P202>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P205", tags: &["bits", "endian", "magic", "order", "ty_int", "ty_ptr"], decl: d_P205, ops: ops::<P205>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P208", tags: &["bits", "cond", "endian", "magic", "map", "order", "ty_int", "ty_opt"], decl: d_P208, ops: ops::<P208>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P211", tags: &["bits", "cond", "default", "endian", "magic", "order", "skip", "ty_int"], decl: d_P211, ops: ops::<P211>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P214", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "endian", "magic", "order", "ty_int", "ty_list"], decl: d_P214, ops: ops::<P214>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P217", tags: &["bits", "cond", "default", "endian", "map", "order", "ty_int", "ty_opt"], decl: d_P217, ops: ops::<P217>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P220", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "endian", "order", "ty_int", "ty_list", "until", "update"], decl: d_P220, ops: ops::<P220>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P223", tags: &["bits", "endian", "magic", "order", "size", "ty_int"], decl: d_P223, ops: ops::<P223>(), deku_id: None, size_bits: Some((<P223 as DekuSize>::SIZE_BITS, 68)) });
    v.push(Entry { name: "P226", tags: &["bits", "endian", "order", "seek", "ty_int"], decl: d_P226, ops: ops::<P226>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P229", tags: &["bits", "bytes", "endian", "order", "seek", "ty_int"], decl: d_P229, ops: ops::<P229>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P232", tags: &["bits", "endian", "order", "seek", "ty_int"], decl: d_P232, ops: ops::<P232>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P235", tags: &["bits", "endian", "map", "order", "seek", "ty_int"], decl: d_P235, ops: ops::<P235>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P238", tags: &["bits", "endian", "order", "pad", "seek", "ty_int"], decl: d_P238, ops: ops::<P238>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P241", tags: &["bits", "endian", "order", "reader", "seek", "ty_int"], decl: d_P241, ops: ops::<P241>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P244", tags: &["bits", "count", "endian", "order", "seek", "ty_int", "ty_list", "ty_tup", "until"], decl: d_P244, ops: ops::<P244>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P247", tags: &["bits", "cond", "default", "endian", "order", "seek", "skip", "ty_int"], decl: d_P247, ops: ops::<P247>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P250", tags: &["bits", "bytes", "bytes_read", "count", "endian", "order", "seek", "ty_int", "ty_list", "writer"], decl: d_P250, ops: ops::<P250>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P253", tags: &["bits", "endian", "order", "seek", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P253, ops: ops::<P253>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P256", tags: &["assert", "assert_eq", "bits", "endian", "order", "seek", "ty_int"], decl: d_P256, ops: ops::<P256>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P259", tags: &["bits", "bytes", "endian", "order", "pad", "skip", "ty_arr", "ty_int"], decl: d_P259, ops: ops::<P259>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P262", tags: &["bits", "cond", "default", "endian", "map", "order", "skip", "ty_int"], decl: d_P262, ops: ops::<P262>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P265", tags: &["bits", "bytes", "cond", "default", "endian", "order", "pad", "skip", "ty_int", "ty_tup", "writer"], decl: d_P265, ops: ops::<P265>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P268", tags: &["bits", "bits_read", "cond", "count", "default", "endian", "map", "order", "skip", "temp", "temp_value", "ty_int", "ty_list"], decl: d_P268, ops: ops::<P268>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P271", tags: &["bits", "bytes", "bytes_read", "cond", "endian", "order", "pad", "skip", "ty_int", "ty_list", "ty_tup", "writer"], decl: d_P271, ops: ops::<P271>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P274", tags: &["bits", "bytes", "bytes_read", "cond", "count", "default", "endian", "order", "reader", "skip", "ty_int", "ty_list", "ty_tup", "writer"], decl: d_P274, ops: ops::<P274>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P277", tags: &["assert", "bits", "cond", "endian", "order", "ty_int"], decl: d_P277, ops: ops::<P277>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P280", tags: &["assert_eq", "bits", "cond", "endian", "order", "skip", "ty_int", "writer"], decl: d_P280, ops: ops::<P280>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P283", tags: &["bits", "default", "endian", "magic", "order", "size", "skip", "ty_int", "update"], decl: d_P283, ops: ops::<P283>(), deku_id: None, size_bits: Some((<P283 as DekuSize>::SIZE_BITS, 91)) });
    v.push(Entry { name: "P286", tags: &["bits", "bytes", "bytes_read", "count", "endian", "order", "ty_int", "ty_list"], decl: d_P286, ops: ops::<P286>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P289", tags: &["bits", "bytes", "cond", "default", "endian", "order", "seek", "ty_int"], decl: d_P289, ops: ops::<P289>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P292", tags: &["bits", "bits_read", "cond", "default", "endian", "order", "seek", "skip", "ty_int", "ty_list", "until"], decl: d_P292, ops: ops::<P292>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P295", tags: &["bits", "endian", "order", "seek", "ty_int", "writer"], decl: d_P295, ops: ops::<P295>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P298", tags: &["bits", "cond", "default", "endian", "order", "pad", "skip", "ty_int", "ty_opt", "update"], decl: d_P298, ops: ops::<P298>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P301", tags: &["bits", "bytes", "cond", "count", "endian", "map", "order", "skip", "ty_int", "ty_list", "ty_ptr"], decl: d_P301, ops: ops::<P301>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P304", tags: &["bits", "cond", "default", "endian", "order", "pad", "skip", "ty_int", "ty_opt", "update"], decl: d_P304, ops: ops::<P304>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P307", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "default", "endian", "order", "pad", "skip", "ty_int", "ty_list", "update"], decl: d_P307, ops: ops::<P307>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P310", tags: &["bits", "bytes", "bytes_read", "cond", "count", "endian", "order", "pad", "skip", "ty_int", "ty_list", "ty_tup", "writer"], decl: d_P310, ops: ops::<P310>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P313", tags: &["bits", "bits_read", "cond", "endian", "order", "skip", "ty_int", "ty_list", "until"], decl: d_P313, ops: ops::<P313>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P316", tags: &["assert_eq", "bits", "cond", "endian", "order", "ty_int"], decl: d_P316, ops: ops::<P316>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P319", tags: &["bits", "cond", "default", "endian", "magic", "order", "pad", "ty_int"], decl: d_P319, ops: ops::<P319>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P322", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "default", "endian", "order", "pad", "skip", "ty_int", "ty_list", "until"], decl: d_P322, ops: ops::<P322>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P325", tags: &["bits", "cond", "endian", "order", "seek", "ty_int"], decl: d_P325, ops: ops::<P325>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P328", tags: &["bits", "bytes", "bytes_read", "endian", "order", "seek", "ty_int", "ty_list", "ty_tup", "writer"], decl: d_P328, ops: ops::<P328>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P331", tags: &["bits", "count", "endian", "order", "seek", "ty_int", "ty_list"], decl: d_P331, ops: ops::<P331>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P334", tags: &["bits", "bytes", "cond", "count", "endian", "order", "skip", "ty_arr", "ty_int", "ty_list", "ty_ptr"], decl: d_P334, ops: ops::<P334>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P337", tags: &["bits", "cond", "count", "default", "order", "pad", "skip", "ty_int", "ty_list", "ty_ptr", "until"], decl: d_P337, ops: ops::<P337>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P340", tags: &["bits", "bits_read", "cond", "default", "endian", "order", "pad", "skip", "ty_int", "ty_list"], decl: d_P340, ops: ops::<P340>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P343", tags: &["bits", "cond", "default", "map", "order", "pad", "reader", "skip", "ty_int", "ty_opt"], decl: d_P343, ops: ops::<P343>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P346", tags: &["bits", "cond", "count", "default", "order", "pad", "reader", "skip", "ty_int", "ty_list", "until", "update"], decl: d_P346, ops: ops::<P346>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P349", tags: &["assert", "bits", "cond", "default", "order", "pad", "ty_int"], decl: d_P349, ops: ops::<P349>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P352", tags: &["bits", "magic", "order", "ty_arr", "ty_int", "ty_ptr"], decl: d_P352, ops: ops::<P352>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P355", tags: &["bits", "cond", "count", "default", "endian", "order", "pad", "ty_int", "ty_list", "ty_ptr"], decl: d_P355, ops: ops::<P355>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P358", tags: &["bits", "cond", "order", "seek", "ty_int", "ty_ptr"], decl: d_P358, ops: ops::<P358>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P361", tags: &["bits", "cond", "default", "order", "reader", "seek", "skip", "ty_int"], decl: d_P361, ops: ops::<P361>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P364", tags: &["bits", "default", "order", "seek", "skip", "ty_int", "update"], decl: d_P364, ops: ops::<P364>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P367", tags: &["bits", "order", "seek", "ty_int"], decl: d_P367, ops: ops::<P367>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P370", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "endian", "skip", "ty_int", "ty_list", "ty_ptr", "ty_tup", "writer"], decl: d_P370, ops: ops::<P370>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P373", tags: &["bits", "bytes", "cond", "default", "endian", "order", "pad", "ty_int", "ty_nz"], decl: d_P373, ops: ops::<P373>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P376", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "endian", "skip", "ty_int", "ty_list", "ty_tup", "writer"], decl: d_P376, ops: ops::<P376>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P379", tags: &["bits", "bits_read", "cond", "default", "endian", "pad", "skip", "ty_int", "ty_list", "ty_opt", "until"], decl: d_P379, ops: ops::<P379>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P382", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "default", "endian", "skip", "ty_int", "ty_list", "ty_tup", "until", "writer"], decl: d_P382, ops: ops::<P382>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P385", tags: &["assert", "bits", "cond", "endian", "magic", "skip", "ty_int"], decl: d_P385, ops: ops::<P385>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P388", tags: &["bits", "cond", "endian", "magic", "ty_int"], decl: d_P388, ops: ops::<P388>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P391", tags: &["bits", "count", "endian", "magic", "ty_int", "ty_list"], decl: d_P391, ops: ops::<P391>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P394", tags: &["bits", "bytes", "bytes_read", "count", "endian", "order", "ty_int", "ty_list"], decl: d_P394, ops: ops::<P394>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P397", tags: &["bits", "bytes", "cond", "default", "endian", "seek", "ty_int"], decl: d_P397, ops: ops::<P397>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P400", tags: &["bits", "endian", "pad", "seek", "ty_int"], decl: d_P400, ops: ops::<P400>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P403", tags: &["bits", "cond", "count", "default", "endian", "seek", "skip", "ty_int", "ty_list", "until"], decl: d_P403, ops: ops::<P403>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "Long8", tags: &["count", "endian", "ty_int", "ty_list"], decl: d_Long8, ops: ops::<Long8>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "Long8U", tags: &["bits", "count", "endian", "ty_int", "ty_list"], decl: d_Long8U, ops: ops::<Long8U>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "Long8L", tags: &["bits", "count", "endian", "order", "ty_int", "ty_list"], decl: d_Long8L, ops: ops::<Long8L>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "LongB", tags: &["bits_read", "bytes_read", "endian", "ty_int", "ty_list", "ty_ptr"], decl: d_LongB, ops: ops::<LongB>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "Long16", tags: &["count", "endian", "ty_int", "ty_list"], decl: d_Long16, ops: ops::<Long16>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "LongA", tags: &["bits", "endian", "size", "ty_arr", "ty_int"], decl: d_LongA, ops: ops::<LongA>(), deku_id: None, size_bits: Some((<LongA as DekuSize>::SIZE_BITS, 3528)) });
    v.push(Entry { name: "LongPadB", tags: &["endian", "pad", "ty_int"], decl: d_LongPadB, ops: ops::<LongPadB>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "LongPadb", tags: &["bits", "endian", "pad", "ty_int"], decl: d_LongPadb, ops: ops::<LongPadb>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "LongSeek", tags: &["endian", "seek", "ty_int"], decl: d_LongSeek, ops: ops::<LongSeek>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "LongStr", tags: &["bytes", "ty_cstr", "ty_int"], decl: d_LongStr, ops: ops::<LongStr>(), deku_id: None, size_bits: None });
    v
}
