// @generated by gen_zoo.py
#![allow(clippy::all, unused_parens, unused_variables, dead_code, non_camel_case_types, non_snake_case, unused_imports, unused_mut)]
use deku::prelude::*;
use std::sync::OnceLock;
use vcore::custom;
use vcore::model::*;
use vcore::ops::{deku_id, ops, Entry};
use vcore::val::{Conv, Val};

#[derive(DekuRead, DekuWrite)]
pub struct P0 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11)]
    pub f4: [u32; 2],
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3)]
    pub f6: [u32; 2],
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(cond = "((*k as i128) >= 2)")]
    pub f8: [u32; 2],
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(cond = "((*k as i128) < 2)")]
    pub f10: [u32; 2],
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little")]
    pub f12: [u32; 2],
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P0 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P0 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P0() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P0", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("f4", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("f6", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), ..FieldD::new("f8", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f10", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("f12", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P3 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big")]
    pub f2: Box<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", count = "k")]
    pub f4: Box<[u32]>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big", bytes = 3)]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", cond = "((*k as i128) < 2)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big")]
    pub f12: i32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P3 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P3 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P3() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P3", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(3)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("f12", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct P6 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", skip(write))]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", skip(write), cond = "((*k as i128) < 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", endian = "big")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big")]
    pub f8: (u32, u32,),
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big", update = "((self.k as i128) + 7)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P6 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P6 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P6() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P6", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), skip: Skip::Write, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("f8", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P9 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", bits = 11)]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, cond = "((*k as i128) != 1)")]
    pub f4: Option<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, pad_bytes_after = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bits = 11, pad_bytes_before = "1")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = 11, pad_bits_after = "3")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = 11, pad_bits_before = "((*k as i128) + 1)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P9 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P9 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P9() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P9", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(11)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f4", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), pad_bytes_before: Some(l(1)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), pad_bits_after: Some(l(3)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P12 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 11, writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3)]
    pub f4: Box<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little")]
    pub f6: Box<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "msb")]
    pub f8: Box<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)")]
    pub f10: Box<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_before = "1")]
    pub f12: Box<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P12 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P12 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P12() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P12", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P15 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", skip, cond = "((*k as i128) < 2)")]
    pub f2: Box<[u32]>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", skip(read))]
    pub f4: Box<[u32]>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", skip(read), cond = "((*k as i128) != 1)")]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", skip(write))]
    pub f8: Box<[u32]>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", skip(write), cond = "((*k as i128) < 2)")]
    pub f10: Box<[u32]>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bytes = "3", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P15 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P15 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P15() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P15", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct P18 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, skip(write))]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, skip(write), cond = "((*k as i128) < 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", bytes = 3)]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bytes = "3")]
    pub f10: (u32, u32,),
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bytes = "3", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P18 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P18 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P18() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P18", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), skip: Skip::Write, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("f10", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P21 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) >= 2)")]
    pub f2: (u32, u32,),
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", cond = "((*k as i128) >= 2)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", cond = "((*k as i128) >= 2)")]
    pub f8: Vec<u8>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = "24", bits_read = "((*k as i128) * 24)", cond = "((*k as i128) >= 2)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bytes = "3", bytes_read = "((*k as i128) * 3)", cond = "((*k as i128) >= 2)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P21 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P21 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P21() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P21", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), update: Some(b(Bop::Add, X::F(1), l(7))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P24 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", cond = "((*k as i128) < 2)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) < 2)", update = "((self.k as i128) + 7)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", cond = "((*k as i128) < 2)")]
    pub f6: Vec<u8>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", cond = "((*k as i128) < 2)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bytes = "3", bytes_read = "((*k as i128) * 3)", cond = "((*k as i128) < 2)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", cond = "((*k as i128) < 2)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P24 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P24 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P24() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P24", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct P27 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)")]
    pub f2: i32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as i32")]
    pub f4: i32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(update = "((self.k as i128) + 7)")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", map = "custom::map_wide")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", bit_order = "msb")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little")]
    pub f12: std::num::NonZeroU32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P27 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P27 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f5: Conv::fv(&i[4]), f6: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P27() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P27", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { temp_value: Some(b(Bop::Add, X::F(1), l(3))), temp: true, ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("f12", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P30 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little")]
    pub f2: (u32, u32,),
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", count = "k")]
    pub f8: Vec<u8>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", bits = "24", bits_read = "((*k as i128) * 24)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", bytes = "3", bytes_read = "((*k as i128) * 3)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P30 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P30 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P30() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P30", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Count(X::F(1)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct P33 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", map = "custom::map_wide")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(update = "((self.k as i128) + 7)", map = "custom::map_wide")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(map = "custom::map_wide", writer = "custom::wr_wide(deku::writer, *f8, *k)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "msb", cond = "((*k as i128) != 1)")]
    pub f10: Option<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "msb", pad_bytes_after = "((*k as i128) % 2)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P33 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P33 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f5: Conv::fv(&i[4]), f6: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P33() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P33", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), writer: Some(custom::m_wr_wide), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f10", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P36 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", update = "((self.k as i128) + 7)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", count = "k")]
    pub f4: Vec<u8>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "msb", count = "k")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "msb", writer = "custom::wr_wide(deku::writer, *f10, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)")]
    pub f12: std::num::NonZeroU32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P36 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P36 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P36() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P36", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), writer: Some(custom::m_wr_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f12", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct P39 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip(read))]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip(write))]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip(write), cond = "((*k as i128) < 2)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", pad_bytes_after = "((*k as i128) % 2)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P39 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P39 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P39() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P39", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), skip: Skip::Read, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct P42 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_before = "1", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", skip(read))]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_before = "1", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bytes_before = "1", skip(write))]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_before = "1", skip(write), cond = "((*k as i128) < 2)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", pad_bytes_before = "1")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P42 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P42 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P42() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P42", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), skip: Skip::Read, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), skip: Skip::Write, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct P45 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_after = "3", skip(read))]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_after = "3", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", skip(write))]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_after = "3", skip(write), cond = "((*k as i128) < 2)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", pad_bits_after = "3")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_after = "3")]
    pub f12: (u32, u32,),
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P45 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P45 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P45() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P45", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), skip: Skip::Read, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("f12", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct P48 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip(write))]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip(write), cond = "((*k as i128) < 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", pad_bits_before = "((*k as i128) + 1)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)")]
    pub f8: (u32, u32,),
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", update = "((self.k as i128) + 7)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P48 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P48 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P48() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P48", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), skip: Skip::Write, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f8", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P51 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(update = "((self.k as i128) + 7)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(reader = "custom::rd_wide(deku::reader, *k)", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip)]
    pub f6: (u32, u32,),
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip)]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip, default = "(6) as u32", update = "((self.k as i128) + 7)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", skip)]
    pub f12: Vec<u8>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P51 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P51 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P51() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P51", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), reader: Some(custom::m_rd_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { reader: Some(custom::m_rd_wide), writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, ..FieldD::new("f6", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::All, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P54 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read))]
    pub f2: (u32, u32,),
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip(read))]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", skip(read))]
    pub f8: Vec<u8>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = "24", bits_read = "((*k as i128) * 24)", skip(read))]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bytes = "3", bytes_read = "((*k as i128) * 3)", skip(read))]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P54 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P54 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P54() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P54", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::Read, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::Read, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::Read, ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), skip: Skip::Read, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P57 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), update = "((self.k as i128) + 7)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", skip(write))]
    pub f4: Vec<u8>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", skip(write))]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", skip(write))]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", skip(write))]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip(write), writer = "custom::wr_wide(deku::writer, *f12, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P57 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P57 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P57() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P57", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::Write, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::Write, ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), skip: Skip::Write, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, writer: Some(custom::m_wr_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct P60 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(magic = b"\xa5\x3c")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, assert = "((*f6 as i128) != 9)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P60 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P60 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P60() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P60", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), assert: Some(b(Bop::Ne, X::F(4), l(9))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), assert: Some(b(Bop::Ne, X::F(6), l(9))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P63 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert = "((*f2 as i128) != 9)", map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", assert = "((*f6 as i128) != 9)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P63 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P63 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P63() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P63", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(2), l(9))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), assert: Some(b(Bop::Ne, X::F(4), l(9))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), assert: Some(b(Bop::Ne, X::F(6), l(9))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P66 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), assert = "((*f6 as i128) != 9)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P66 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P66 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P66() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P66", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(2), l(9))), skip: Skip::Read, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), assert: Some(b(Bop::Ne, X::F(4), l(9))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(6), l(9))), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P69 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) < 2)", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as i32")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P69 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P69 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P69() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P69", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::Add, X::F(1), l(1))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P72 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip, default = "(6) as u32", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P72 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P72 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P72() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P72", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), reader: Some(custom::m_rd_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P75 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as u32", writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P75 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P75 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P75() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P75", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P78 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(magic = b"\xa5\x3c", map = "custom::map_wide")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P78 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P78 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P78() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P78", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P81 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(magic = b"\xa5\x3c", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip, default = "(6) as u32", magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P81 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P81 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P81() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P81", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), reader: Some(custom::m_rd_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P84 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", magic = b"\xa5\x3c")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(update = "((self.k as i128) + 7)", magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", magic = b"\xa5\x3c")]
    pub f6: Vec<u8>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P84 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P84 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P84() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P84", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P87 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", bit_order = "lsb")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", bits = 11)]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "lsb")]
    pub f8: Box<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb", count = "k")]
    pub f10: Box<[u32]>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "lsb", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P87 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P87 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P87() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P87", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(11)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct P90 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", skip(write))]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", skip(write), cond = "((*k as i128) < 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", bit_order = "lsb")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb")]
    pub f10: (u32, u32,),
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "lsb", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P90 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P90 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P90() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P90", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), skip: Skip::Write, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f10", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P93 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_end = "-10")]
    pub f4: [u32; 2],
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_start = "2")]
    pub f6: [u32; 2],
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P93 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P93 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P93() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P93", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P96 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)")]
    pub f2: Box<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_end = "-10")]
    pub f4: Box<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_start = "2")]
    pub f6: Box<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P96 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P96 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P96() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P96", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P99 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P99 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P99 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P99() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P99", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P102 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P102 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P102 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P102() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P102", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P105 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)")]
    pub f2: std::num::NonZeroU32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_end = "-10")]
    pub f4: std::num::NonZeroU32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_start = "2")]
    pub f6: std::num::NonZeroU32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P105 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P105 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P105() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P105", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P108 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_before = "1", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_before = "1", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P108 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P108 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P108() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P108", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P111 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_end = "-10", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_start = "2", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P111 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P111 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P111() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P111", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), reader: Some(custom::m_rd_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), reader: Some(custom::m_rd_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), reader: Some(custom::m_rd_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P114 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)")]
    pub f2: (u32, u32,),
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", seek_from_current = "((*k as i128) % 2)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", seek_from_current = "((*k as i128) % 2)")]
    pub f6: Vec<u8>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P114 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P114 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P114() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P114", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P117 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), seek_from_end = "-10")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P117 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P117 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P117() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P117", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P120 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", seek_from_end = "-10")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", seek_from_end = "-10")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_end = "-10", writer = "custom::wr_wide(deku::writer, *f6, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P120 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P120 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P120() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P120", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), writer: Some(custom::m_wr_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P123 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_start = "2")]
    pub f2: (u32, u32,),
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", seek_from_start = "2")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(update = "((self.k as i128) + 7)", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P123 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P123 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P123() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P123", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P126 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert = "((*f2 as i128) != 9)", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as u32", seek_from_current = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(magic = b"\xa5\x3c", seek_from_current = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P126 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P126 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P126() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P126", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(2), l(9))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P129 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11)]
    pub f4: [u32; 2],
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3)]
    pub f6: [u32; 2],
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(cond = "((*k as i128) >= 2)")]
    pub f8: [u32; 2],
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(cond = "((*k as i128) < 2)")]
    pub f10: [u32; 2],
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little")]
    pub f12: [u32; 2],
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P129 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P129 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P129() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P129", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("f4", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("f6", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), ..FieldD::new("f8", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f10", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("f12", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P132 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big")]
    pub f2: Box<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", count = "k")]
    pub f4: Box<[u32]>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big", bytes = 3)]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", cond = "((*k as i128) < 2)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big")]
    pub f12: i32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P132 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P132 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P132() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P132", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(3)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("f12", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P135 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", skip(write), cond = "((*k as i128) < 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", endian = "big")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big")]
    pub f6: (u32, u32,),
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", update = "((self.k as i128) + 7)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big", count = "k")]
    pub f12: Vec<u8>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P135 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P135 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f5: Conv::fv(&i[4]), f6: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P135() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P135", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("f6", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(1)), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P138 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 11)]
    pub f2: std::num::NonZeroU32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, cond = "((*k as i128) != 1)")]
    pub f4: Option<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, pad_bytes_after = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bits = 11, pad_bytes_before = "1")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = 11, pad_bits_after = "3")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = 11, pad_bits_before = "((*k as i128) + 1)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P138 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P138 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P138() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P138", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("f2", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f4", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), pad_bytes_before: Some(l(1)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), pad_bits_after: Some(l(3)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P141 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 11, writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3)]
    pub f4: Box<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little")]
    pub f6: Box<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "lsb")]
    pub f8: Box<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)")]
    pub f10: Box<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_before = "1")]
    pub f12: Box<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P141 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P141 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P141() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P141", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P144 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", skip, cond = "((*k as i128) < 2)")]
    pub f2: Box<[u32]>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", skip(read))]
    pub f4: Box<[u32]>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", skip(read), cond = "((*k as i128) != 1)")]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", skip(write))]
    pub f8: Box<[u32]>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", skip(write), cond = "((*k as i128) < 2)")]
    pub f10: Box<[u32]>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bytes = "3", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P144 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P144 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P144() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P144", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P147 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, skip(read))]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, skip(write))]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bytes = "3", skip(write), cond = "((*k as i128) < 2)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", bytes = "3")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P147 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P147 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P147() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P147", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), skip: Skip::Read, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), skip: Skip::Write, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P150 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) >= 2)")]
    pub f6: (u32, u32,),
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", cond = "((*k as i128) >= 2)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", update = "((self.k as i128) + 7)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", cond = "((*k as i128) >= 2)")]
    pub f12: Vec<u8>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P150 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P150 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P150() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P150", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), reader: Some(custom::m_rd_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), ..FieldD::new("f6", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), update: Some(b(Bop::Add, X::F(1), l(7))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P153 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) < 2)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) < 2)")]
    pub f4: (u32, u32,),
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", cond = "((*k as i128) < 2)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(cond = "((*k as i128) < 2)", update = "((self.k as i128) + 7)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", cond = "((*k as i128) < 2)")]
    pub f10: Vec<u8>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = "24", bits_read = "((*k as i128) * 24)", cond = "((*k as i128) < 2)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P153 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P153 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P153() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P153", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), reader: Some(custom::m_rd_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P156 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as i32")]
    pub f2: i32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write))]
    pub f4: i32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as i32")]
    pub f8: i32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(update = "((self.k as i128) + 7)")]
    pub f10: i32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", bit_order = "lsb")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P156 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P156 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P156() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P156", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::Add, X::F(1), l(4)))), ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { temp_value: Some(b(Bop::Add, X::F(1), l(3))), temp: true, ..FieldD::new("f8", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f10", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P159 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", endian = "little")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little")]
    pub f4: (u32, u32,),
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", update = "((self.k as i128) + 7)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", count = "k")]
    pub f10: Vec<u8>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", bits = "24", bits_read = "((*k as i128) * 24)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P159 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P159 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f3: Conv::fv(&i[2]), f4: Conv::fv(&i[3]), f5: Conv::fv(&i[4]), f6: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P159() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P159", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P162 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", skip(write))]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", skip(write), cond = "((*k as i128) < 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", bit_order = "lsb")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb")]
    pub f10: (u32, u32,),
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "lsb", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P162 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P162 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P162() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P162", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), skip: Skip::Write, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f10", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P165 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", map = "custom::map_wide")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), map = "custom::map_wide")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", map = "custom::map_wide")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", map = "custom::map_wide")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(update = "((self.k as i128) + 7)", map = "custom::map_wide")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P165 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P165 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P165() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P165", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P168 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip(write))]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip(write), cond = "((*k as i128) < 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", pad_bytes_after = "((*k as i128) % 2)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)")]
    pub f10: (u32, u32,),
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P168 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P168 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P168() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P168", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f10", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P171 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_before = "1", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", skip(write))]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_before = "1", skip(write), cond = "((*k as i128) < 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", pad_bytes_before = "1")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_before = "1")]
    pub f10: (u32, u32,),
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_before = "1", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P171 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P171 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P171() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P171", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), skip: Skip::Write, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("f10", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P174 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_after = "3", skip(write))]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_after = "3", skip(write), cond = "((*k as i128) < 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", pad_bits_after = "3")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_after = "3")]
    pub f8: (u32, u32,),
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_after = "3", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_after = "3", update = "((self.k as i128) + 7)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P174 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P174 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P174() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P174", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), skip: Skip::Write, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("f8", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P177 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", pad_bits_before = "((*k as i128) + 1)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)")]
    pub f4: (u32, u32,),
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", update = "((self.k as i128) + 7)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", pad_bits_before = "((*k as i128) + 1)")]
    pub f10: Vec<u8>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = "24", bits_read = "((*k as i128) * 24)", pad_bits_before = "((*k as i128) + 1)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P177 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P177 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f3: Conv::fv(&i[2]), f4: Conv::fv(&i[3]), f5: Conv::fv(&i[4]), f6: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P177() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P177", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P180 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip)]
    pub f2: (u32, u32,),
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip)]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip, default = "(6) as u32", update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", skip)]
    pub f8: Vec<u8>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = "24", bits_read = "((*k as i128) * 24)", skip)]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bytes = "3", bytes_read = "((*k as i128) * 3)", skip)]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P180 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P180 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P180() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P180", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::All, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::All, ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), skip: Skip::All, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P183 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), update = "((self.k as i128) + 7)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", skip(read))]
    pub f4: Vec<u8>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", skip(read))]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", skip(read))]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", skip(read))]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip(read), writer = "custom::wr_wide(deku::writer, *f12, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P183 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P183 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P183() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P183", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::Read, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::Read, ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), skip: Skip::Read, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, writer: Some(custom::m_wr_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P186 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", skip(write))]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", skip(write))]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", skip(write))]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip(write), writer = "custom::wr_wide(deku::writer, *f8, *k)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)")]
    pub f10: (u32, u32,),
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip(write), cond = "((*k as i128) < 2)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P186 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P186 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P186() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P186", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::Write, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), skip: Skip::Write, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, writer: Some(custom::m_wr_wide), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f10", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::Write, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P189 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, assert = "((*f6 as i128) != 9)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P189 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P189 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P189() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P189", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), assert: Some(b(Bop::Ne, X::F(2), l(9))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), assert: Some(b(Bop::Ne, X::F(4), l(9))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), assert: Some(b(Bop::Ne, X::F(6), l(9))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P192 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", assert = "((*f6 as i128) != 9)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P192 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P192 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P192() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P192", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), assert: Some(b(Bop::Ne, X::F(2), l(9))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), assert: Some(b(Bop::Ne, X::F(4), l(9))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), assert: Some(b(Bop::Ne, X::F(6), l(9))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P195 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(assert = "((*f6 as i128) != 9)", update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P195 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P195 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P195() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P195", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(2), l(9))), skip: Skip::Write, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert: Some(b(Bop::Ne, X::F(4), l(9))), skip: Skip::Write, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(6), l(9))), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P198 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as i32")]
    pub f2: i32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P198 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P198 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P198() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P198", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::Add, X::F(1), l(1))), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P201 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P201 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P201 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P201() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P201", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::Read, hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P204 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(magic = b"\xa5\x3c")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(assert = "((*f4 as i128) != 9)", magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as u32", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P204 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P204 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P204() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P204", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(4), l(9))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), magic: Some(b"\xa5\x3c"), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P207 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) < 2)", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(magic = b"\xa5\x3c")]
    pub f4: i32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P207 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P207 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P207() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P207", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P210 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(magic = b"\xa5\x3c", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip, default = "(6) as u32", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P210 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P210 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P210() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P210", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), reader: Some(custom::m_rd_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P213 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(magic = b"\xa5\x3c")]
    pub f2: (u32, u32,),
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", magic = b"\xa5\x3c")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(update = "((self.k as i128) + 7)", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P213 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P213 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P213() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P213", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P216 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", bit_order = "msb")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", bits = 11)]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "msb")]
    pub f8: Box<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "msb", count = "k")]
    pub f10: Box<[u32]>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "msb", bytes = "3")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P216 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P216 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P216() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P216", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(11)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bytes: Some(l(3)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P219 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", skip(read))]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", skip(write))]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "msb", skip(write), cond = "((*k as i128) < 2)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", bit_order = "msb")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "msb")]
    pub f12: (u32, u32,),
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P219 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P219 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P219() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P219", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), skip: Skip::Read, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f12", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P222 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    pub f6: u8,
}
impl Conv for P222 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P222 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_P222() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P222", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), assert: Some(b(Bop::Ne, X::F(2), l(9))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P225 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P225 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P225 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P225() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P225", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P228 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", seek_from_current = "((*k as i128) % 2)")]
    pub f2: Box<[u32]>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", seek_from_end = "-10")]
    pub f4: Box<[u32]>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", seek_from_start = "2")]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P228 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P228 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P228() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P228", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P231 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) < 2)", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) < 2)", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) < 2)", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P231 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P231 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P231() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P231", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P234 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P234 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P234 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P234() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P234", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P237 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P237 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P237 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P237() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P237", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P240 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P240 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P240 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P240() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P240", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P243 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), seek_from_current = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", seek_from_current = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P243 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P243 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P243() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P243", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P246 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)", writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip, default = "(6) as u32", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", seek_from_end = "-10")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P246 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P246 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P246() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P246", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P249 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(update = "((self.k as i128) + 7)", seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", seek_from_end = "-10")]
    pub f4: Vec<u8>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", seek_from_end = "-10")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P249 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P249 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P249() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P249", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P252 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", seek_from_start = "2")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), seek_from_start = "2")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P252 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P252 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P252() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P252", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P255 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", seek_from_start = "2")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_start = "2", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    pub f6: u8,
}
impl Conv for P255 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P255 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_P255() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P255", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P258 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P258 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P258 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P258() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P258", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P261 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", endian = "big")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", count = "k")]
    pub f4: Vec<u8>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big", bytes = 3, bytes_read = "((*k as i128) * 3)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", count = "k")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = 11, cond = "((*k as i128) < 2)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P261 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P261 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f3: Conv::fv(&i[2]), f4: Conv::fv(&i[3]), f5: Conv::fv(&i[4]), f6: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P261() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P261", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P264 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", cond = "((*k as i128) >= 2)")]
    pub f2: Box<[u32]>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", pad_bytes_before = "1")]
    pub f4: Box<[u32]>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", pad_bits_before = "((*k as i128) + 1)")]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", skip(read), cond = "((*k as i128) != 1)")]
    pub f8: Box<[u32]>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", bytes = "3")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "lsb", bytes = "3")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P264 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P264 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P264() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P264", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(3)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bytes: Some(l(3)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P267 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", cond = "((*k as i128) < 2)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little")]
    pub f4: i32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as i32")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip(write))]
    pub f8: i32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as i32")]
    pub f10: i32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", bit_order = "lsb")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P267 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P267 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P267() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P267", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, ..FieldD::new("f8", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { temp_value: Some(b(Bop::Add, X::F(1), l(3))), temp: true, ..FieldD::new("f10", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P270 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", update = "((self.k as i128) + 7)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", bytes = 3, bytes_read = "((*k as i128) * 3)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", map = "custom::map_wide")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip(write), map = "custom::map_wide")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", map = "custom::map_wide")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P270 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P270 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P270() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P270", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P273 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", pad_bits_after = "3")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_after = "3", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = "24", bits_read = "((*k as i128) * 24)", pad_bits_before = "((*k as i128) + 1)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip(read), reader = "custom::rd_wide(deku::reader, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P273 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P273 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P273() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P273", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bits_after: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, reader: Some(custom::m_rd_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P276 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", update = "((self.k as i128) + 7)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(update = "((self.k as i128) + 7)", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    pub f6: u8,
}
impl Conv for P276 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P276 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_P276() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P276", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::Write, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P279 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P279 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P279 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P279() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P279", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert: Some(b(Bop::Ne, X::F(2), l(9))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(4), l(9))), skip: Skip::Write, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P282 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_after = "3", magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(magic = b"\xa5\x3c", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P282 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P282 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P282() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P282", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), reader: Some(custom::m_rd_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P285 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", skip(write))]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", bit_order = "msb")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "msb", count = "k")]
    pub f10: Vec<u8>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "msb", bits = "24", bits_read = "((*k as i128) * 24)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P285 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P285 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P285() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P285", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P288 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_start = "2")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_start = "2")]
    pub f4: Box<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", seek_from_current = "((*k as i128) % 2)")]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P288 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P288 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P288() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P288", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P291 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_after = "3", seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", seek_from_current = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_end = "-10", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P291 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P291 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P291() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P291", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), reader: Some(custom::m_rd_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P294 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", seek_from_start = "2")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_start = "2")]
    pub f4: (u32, u32,),
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", seek_from_start = "2")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P294 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P294 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P294() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P294", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P297 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) >= 2)")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1")]
    pub f4: [u32; 2],
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)")]
    pub f6: [u32; 2],
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)")]
    pub f8: [u32; 2],
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", bits = 11)]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big", bytes = "3")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P297 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P297 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P297() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P297", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("f4", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f6", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, ..FieldD::new("f8", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(11)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(3)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P300 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 11, pad_bits_after = "3")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, skip, default = "(6) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bytes_before = "1")]
    pub f8: Box<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)")]
    pub f10: Box<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", skip(read))]
    pub f12: Box<[u32]>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P300 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P300 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P300() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P300", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), pad_bits_after: Some(l(3)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P303 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", cond = "((*k as i128) < 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", cond = "((*k as i128) < 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(cond = "((*k as i128) < 2)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(cond = "((*k as i128) < 2)", update = "((self.k as i128) + 7)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)")]
    pub f12: i32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P303 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P303 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P303() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P303", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), reader: Some(custom::m_rd_wide), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f12", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P306 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_after = "3", map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip, default = "(6) as u32", map = "custom::map_wide")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(update = "((self.k as i128) + 7)", map = "custom::map_wide")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "msb", cond = "((*k as i128) != 1)")]
    pub f8: Option<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "msb", pad_bytes_after = "((*k as i128) % 2)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "msb", pad_bits_after = "3")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P306 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P306 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P306() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P306", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f8", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), pad_bits_after: Some(l(3)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P309 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", pad_bytes_before = "1")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_after = "3", skip(write))]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", pad_bits_after = "3")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", pad_bits_after = "3")]
    pub f12: Vec<u8>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P309 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P309 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P309() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P309", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bytes_before: Some(l(1)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), skip: Skip::Write, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P312 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip(read))]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", skip(read))]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)")]
    pub f6: (u32, u32,),
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", skip(read), cond = "((*k as i128) != 1)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", writer = "custom::wr_wide(deku::writer, *f10, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip(write), update = "((self.k as i128) + 7)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P312 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P312 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P312() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P312", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::Read, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::Read, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, ..FieldD::new("f6", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), skip: Skip::Read, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), writer: Some(custom::m_wr_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::Write, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P315 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert = "((*f2 as i128) != 9)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip, default = "(6) as u32", assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(assert = "((*f6 as i128) != 9)", update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P315 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P315 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P315() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P315", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(2), l(9))), reader: Some(custom::m_rd_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(4), l(9))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(6), l(9))), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P318 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", magic = b"\xa5\x3c")]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P318 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P318 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P318() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P318", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::Write, hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P321 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", bit_order = "lsb")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", bits = 11)]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", count = "k")]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "lsb", bytes = 3)]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", bit_order = "lsb")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P321 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P321 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P321() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P321", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(11)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bytes: Some(l(3)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P324 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)")]
    pub f2: Box<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", seek_from_end = "-10")]
    pub f4: Box<[u32]>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", seek_from_end = "-10")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P324 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P324 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P324() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P324", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P327 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), seek_from_current = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", seek_from_current = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P327 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P327 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P327() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P327", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P330 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", seek_from_start = "2")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), seek_from_start = "2")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", seek_from_start = "2")]
    pub f6: Vec<u8>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P330 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P330 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P330() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P330", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P333 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P333 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P333 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P333() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P333", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P336 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", bytes = 3, bytes_read = "((*k as i128) * 3)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, count = "k")]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bits = 11, cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", bits = 11)]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "lsb", bits = 11)]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P336 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P336 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P336() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P336", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(11)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(11)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P339 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", cond = "((*k as i128) >= 2)")]
    pub f4: Vec<u8>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", cond = "((*k as i128) >= 2)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bytes_before = "1", cond = "((*k as i128) < 2)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", cond = "((*k as i128) < 2)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", cond = "((*k as i128) < 2)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P339 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P339 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P339() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P339", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P342 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", skip(write), cond = "((*k as i128) < 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb")]
    pub f4: (u32, u32,),
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "lsb", writer = "custom::wr_wide(deku::writer, *f8, *k)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_before = "1", map = "custom::map_wide")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", map = "custom::map_wide")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P342 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P342 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P342() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P342", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), writer: Some(custom::m_wr_wide), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P345 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_after = "3", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_after = "3", skip, default = "(6) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip(write))]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", pad_bits_before = "((*k as i128) + 1)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P345 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P345 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P345() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P345", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), reader: Some(custom::m_rd_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), skip: Skip::Write, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P348 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", skip(write))]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)")]
    pub f4: (u32, u32,),
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", writer = "custom::wr_wide(deku::writer, *f6, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P348 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P348 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P348() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P348", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::Write, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, writer: Some(custom::m_wr_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P351 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip, default = "(6) as u32", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as u32", update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P351 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P351 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P351() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P351", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), reader: Some(custom::m_rd_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P354 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(magic = b"\xa5\x3c", writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P354 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P354 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P354() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P354", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P357 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_end = "-10")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", seek_from_current = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, seek_from_current = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P357 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P357 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P357() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P357", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P360 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) != 1)", seek_from_start = "2")]
    pub f2: Option<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", seek_from_start = "2")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P360 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P360 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P360() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P360", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P363 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_end = "-10")]
    pub f4: (u32, u32,),
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_end = "-10", writer = "custom::wr_wide(deku::writer, *f6, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P363 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P363 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P363() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P363", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), writer: Some(custom::m_wr_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P366 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(magic = b"\xa5\x3c", seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P366 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P366 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P366() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P366", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P369 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write))]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", bits = 11)]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big")]
    pub f6: Box<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big", bytes = 3)]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", bit_order = "msb")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big", skip(read))]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P369 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P369 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P369() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P369", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(11)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(3)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), skip: Skip::Read, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P372 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little")]
    pub f2: Box<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb")]
    pub f4: Box<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, count = "k")]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", pad_bytes_after = "((*k as i128) % 2)")]
    pub f8: Box<[u32]>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", pad_bits_after = "3")]
    pub f10: Box<[u32]>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", skip)]
    pub f12: Box<[u32]>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P372 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P372 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P372() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P372", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P375 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) < 2)")]
    pub f2: (u32, u32,),
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", cond = "((*k as i128) < 2)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) < 2)", writer = "custom::wr_wide(deku::writer, *f6, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip(read))]
    pub f8: i32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)")]
    pub f10: i32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", bit_order = "msb")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P375 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P375 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P375() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P375", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), writer: Some(custom::m_wr_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, ..FieldD::new("f8", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f10", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P378 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", bytes = 3, bytes_read = "((*k as i128) * 3)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", writer = "custom::wr_wide(deku::writer, *f6, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)")]
    pub f8: std::num::NonZeroU32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_after = "3")]
    pub f10: std::num::NonZeroU32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_before = "1", cond = "((*k as i128) != 1)")]
    pub f12: Option<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P378 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P378 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P378() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P378", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), writer: Some(custom::m_wr_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f8", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("f10", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f12", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P381 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_after = "3", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", pad_bits_after = "3")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip, default = "(6) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", update = "((self.k as i128) + 7)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P381 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P381 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P381() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P381", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), pad_bits_after: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), reader: Some(custom::m_rd_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), reader: Some(custom::m_rd_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P384 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", skip(write), cond = "((*k as i128) < 2)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    pub f6: u8,
}
impl Conv for P384 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P384 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f5: Conv::fv(&i[4]), f6: Conv::fv(&i[5]) } }
}
pub fn d_P384() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P384", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P387 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P387 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P387 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P387() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P387", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P390 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P390 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P390 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]) } }
}
pub fn d_P390() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P390", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P393 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", skip(write))]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", bit_order = "lsb")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb", count = "k")]
    pub f10: Vec<u8>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "lsb", bits = "24", bits_read = "((*k as i128) * 24)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P393 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P393 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P393() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P393", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P396 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", seek_from_start = "2")]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P396 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P396 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P396() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P396", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P399 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_start = "2")]
    pub f4: std::num::NonZeroU32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) != 1)", seek_from_current = "((*k as i128) % 2)")]
    pub f6: Option<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P399 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P399 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P399() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P399", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P402 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", seek_from_end = "-10")]
    pub f6: Vec<u8>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P402 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P402 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P402() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P402", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P405 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as u32", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P405 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P405 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P405() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P405", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

pub fn entries() -> Vec<Entry> {
    let mut v = vec![];
    v.push(Entry { name: "P0", tags: &["bits", "bytes", "cond", "endian", "ty_arr", "ty_int"], decl: d_P0, ops: ops::<P0>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P3", tags: &["bits", "bytes", "cond", "count", "default", "endian", "ty_int", "ty_list", "ty_ptr"], decl: d_P3, ops: ops::<P3>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P6", tags: &["bits", "cond", "endian", "skip", "temp", "temp_value", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P6, ops: ops::<P6>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P9", tags: &["bits", "cond", "order", "pad", "ty_int", "ty_opt"], decl: d_P9, ops: ops::<P9>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P12", tags: &["bits", "bytes", "endian", "order", "pad", "ty_int", "ty_ptr", "writer"], decl: d_P12, ops: ops::<P12>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P15", tags: &["bits", "bytes", "cond", "count", "default", "skip", "ty_int", "ty_list", "ty_ptr"], decl: d_P15, ops: ops::<P15>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P18", tags: &["bits", "bytes", "cond", "default", "skip", "temp", "temp_value", "ty_int", "ty_list", "ty_tup", "until"], decl: d_P18, ops: ops::<P18>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P21", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "default", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P21, ops: ops::<P21>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P24", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "ty_int", "ty_list", "until", "update"], decl: d_P24, ops: ops::<P24>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P27", tags: &["bits", "cond", "endian", "map", "order", "skip", "temp", "temp_value", "ty_int", "ty_nz", "update"], decl: d_P27, ops: ops::<P27>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P30", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "endian", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P30, ops: ops::<P30>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P33", tags: &["bits", "cond", "map", "order", "pad", "skip", "temp", "temp_value", "ty_int", "ty_opt", "update", "writer"], decl: d_P33, ops: ops::<P33>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P36", tags: &["bits", "bits_read", "count", "order", "pad", "ty_int", "ty_list", "ty_nz", "update", "writer"], decl: d_P36, ops: ops::<P36>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P39", tags: &["bits", "cond", "default", "pad", "skip", "temp", "temp_value", "ty_int"], decl: d_P39, ops: ops::<P39>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P42", tags: &["bits", "cond", "default", "pad", "skip", "temp", "temp_value", "ty_int"], decl: d_P42, ops: ops::<P42>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P45", tags: &["bits", "cond", "default", "pad", "skip", "temp", "temp_value", "ty_int", "ty_tup"], decl: d_P45, ops: ops::<P45>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P48", tags: &["bits", "cond", "pad", "skip", "temp", "temp_value", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P48, ops: ops::<P48>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P51", tags: &["bits", "count", "default", "reader", "skip", "ty_int", "ty_list", "ty_tup", "until", "update", "writer"], decl: d_P51, ops: ops::<P51>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P54", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "skip", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P54, ops: ops::<P54>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P57", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "skip", "ty_int", "ty_list", "update", "writer"], decl: d_P57, ops: ops::<P57>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P60", tags: &["assert", "bits", "endian", "magic", "size", "ty_arr", "ty_int"], decl: d_P60, ops: ops::<P60>(), deku_id: None, size_bits: Some((<P60 as DekuSize>::SIZE_BITS, 157)) });
    v.push(Entry { name: "P63", tags: &["assert", "bits", "map", "order", "pad", "ty_int"], decl: d_P63, ops: ops::<P63>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P66", tags: &["assert", "bits", "cond", "default", "skip", "ty_int"], decl: d_P66, ops: ops::<P66>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P69", tags: &["assert_eq", "bits", "cond", "default", "ty_int"], decl: d_P69, ops: ops::<P69>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P72", tags: &["assert_eq", "bits", "default", "pad", "reader", "skip", "ty_int"], decl: d_P72, ops: ops::<P72>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P75", tags: &["assert_eq", "bits", "endian", "magic", "ty_int", "writer"], decl: d_P75, ops: ops::<P75>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P78", tags: &["bits", "endian", "magic", "map", "order", "ty_int"], decl: d_P78, ops: ops::<P78>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P81", tags: &["bits", "cond", "default", "magic", "reader", "skip", "ty_int"], decl: d_P81, ops: ops::<P81>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P84", tags: &["bits", "count", "magic", "ty_int", "ty_list", "until", "update"], decl: d_P84, ops: ops::<P84>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P87", tags: &["bits", "cond", "count", "default", "endian", "order", "ty_arr", "ty_int", "ty_list", "ty_ptr"], decl: d_P87, ops: ops::<P87>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P90", tags: &["bits", "cond", "default", "order", "skip", "temp", "temp_value", "ty_int", "ty_list", "ty_tup", "until"], decl: d_P90, ops: ops::<P90>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P93", tags: &["bits", "seek", "ty_arr", "ty_int"], decl: d_P93, ops: ops::<P93>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P96", tags: &["bits", "seek", "ty_int", "ty_ptr"], decl: d_P96, ops: ops::<P96>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P99", tags: &["bits", "cond", "default", "seek", "ty_int"], decl: d_P99, ops: ops::<P99>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P102", tags: &["bits", "endian", "seek", "ty_int"], decl: d_P102, ops: ops::<P102>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P105", tags: &["bits", "seek", "ty_int", "ty_nz"], decl: d_P105, ops: ops::<P105>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P108", tags: &["bits", "pad", "seek", "ty_int"], decl: d_P108, ops: ops::<P108>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P111", tags: &["bits", "reader", "seek", "ty_int"], decl: d_P111, ops: ops::<P111>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P114", tags: &["bits", "count", "seek", "ty_int", "ty_list", "ty_tup", "until"], decl: d_P114, ops: ops::<P114>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P117", tags: &["bits", "cond", "default", "seek", "skip", "ty_int"], decl: d_P117, ops: ops::<P117>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P120", tags: &["bits", "bytes", "bytes_read", "count", "seek", "ty_int", "ty_list", "writer"], decl: d_P120, ops: ops::<P120>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P123", tags: &["bits", "seek", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P123, ops: ops::<P123>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P126", tags: &["assert", "assert_eq", "bits", "magic", "seek", "ty_int"], decl: d_P126, ops: ops::<P126>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P129", tags: &["bits", "bytes", "cond", "endian", "order", "ty_arr", "ty_int"], decl: d_P129, ops: ops::<P129>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P132", tags: &["bits", "bytes", "cond", "count", "default", "endian", "order", "ty_int", "ty_list", "ty_ptr"], decl: d_P132, ops: ops::<P132>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P135", tags: &["bits", "cond", "count", "endian", "order", "skip", "temp", "temp_value", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P135, ops: ops::<P135>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P138", tags: &["bits", "cond", "endian", "order", "pad", "ty_int", "ty_nz", "ty_opt"], decl: d_P138, ops: ops::<P138>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P141", tags: &["bits", "bytes", "endian", "order", "pad", "ty_int", "ty_ptr", "writer"], decl: d_P141, ops: ops::<P141>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P144", tags: &["bits", "bytes", "cond", "count", "default", "endian", "order", "skip", "ty_int", "ty_list", "ty_ptr"], decl: d_P144, ops: ops::<P144>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P147", tags: &["bits", "bytes", "cond", "default", "endian", "order", "skip", "temp", "temp_value", "ty_int"], decl: d_P147, ops: ops::<P147>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P150", tags: &["bits", "cond", "count", "default", "endian", "order", "pad", "reader", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P150, ops: ops::<P150>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P153", tags: &["bits", "bits_read", "cond", "count", "endian", "order", "reader", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P153, ops: ops::<P153>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P156", tags: &["bits", "cond", "default", "endian", "order", "skip", "temp", "temp_value", "ty_int", "update"], decl: d_P156, ops: ops::<P156>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P159", tags: &["bits", "bits_read", "count", "endian", "order", "temp", "temp_value", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P159, ops: ops::<P159>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P162", tags: &["bits", "cond", "default", "endian", "order", "skip", "temp", "temp_value", "ty_int", "ty_list", "ty_tup", "until"], decl: d_P162, ops: ops::<P162>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P165", tags: &["bits", "cond", "default", "endian", "map", "order", "skip", "temp", "temp_value", "ty_int", "update"], decl: d_P165, ops: ops::<P165>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P168", tags: &["bits", "cond", "default", "endian", "order", "pad", "skip", "temp", "temp_value", "ty_int", "ty_list", "ty_tup", "until"], decl: d_P168, ops: ops::<P168>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P171", tags: &["bits", "cond", "default", "endian", "order", "pad", "skip", "temp", "temp_value", "ty_int", "ty_list", "ty_tup", "until"], decl: d_P171, ops: ops::<P171>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P174", tags: &["bits", "cond", "endian", "order", "pad", "skip", "temp", "temp_value", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P174, ops: ops::<P174>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P177", tags: &["bits", "bits_read", "count", "endian", "order", "pad", "temp", "temp_value", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P177, ops: ops::<P177>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P180", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "default", "endian", "order", "skip", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P180, ops: ops::<P180>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P183", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "endian", "order", "skip", "ty_int", "ty_list", "update", "writer"], decl: d_P183, ops: ops::<P183>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P186", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "endian", "order", "skip", "ty_int", "ty_list", "ty_tup", "until", "writer"], decl: d_P186, ops: ops::<P186>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P189", tags: &["assert", "bits", "bytes", "endian", "order", "size", "ty_int"], decl: d_P189, ops: ops::<P189>(), deku_id: None, size_bits: Some((<P189 as DekuSize>::SIZE_BITS, 101)) });
    v.push(Entry { name: "P192", tags: &["assert", "bits", "endian", "order", "pad", "ty_int"], decl: d_P192, ops: ops::<P192>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P195", tags: &["assert", "bits", "cond", "endian", "order", "skip", "ty_int", "update"], decl: d_P195, ops: ops::<P195>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P198", tags: &["assert_eq", "bits", "endian", "order", "size", "ty_int"], decl: d_P198, ops: ops::<P198>(), deku_id: None, size_bits: Some((<P198 as DekuSize>::SIZE_BITS, 130)) });
    v.push(Entry { name: "P201", tags: &["assert_eq", "bits", "cond", "default", "endian", "order", "skip", "ty_int"], decl: d_P201, ops: ops::<P201>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P204", tags: &["assert", "assert_eq", "bits", "endian", "magic", "order", "size", "ty_arr", "ty_int"], decl: d_P204, ops: ops::<P204>(), deku_id: None, size_bits: Some((<P204 as DekuSize>::SIZE_BITS, 210)) });
    v.push(Entry { name: "P207", tags: &["bits", "cond", "endian", "magic", "order", "ty_int"], decl: d_P207, ops: ops::<P207>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P210", tags: &["bits", "default", "endian", "magic", "order", "pad", "reader", "skip", "ty_int"], decl: d_P210, ops: ops::<P210>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P213", tags: &["bits", "endian", "magic", "order", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P213, ops: ops::<P213>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P216", tags: &["bits", "bytes", "count", "endian", "order", "ty_arr", "ty_int", "ty_list", "ty_ptr"], decl: d_P216, ops: ops::<P216>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P219", tags: &["bits", "cond", "default", "endian", "order", "skip", "temp", "temp_value", "ty_int", "ty_tup"], decl: d_P219, ops: ops::<P219>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P222", tags: &["assert", "assert_eq", "bits", "endian", "order", "size", "ty_int"], decl: d_P222, ops: ops::<P222>(), deku_id: None, size_bits: Some((<P222 as DekuSize>::SIZE_BITS, 91)) });
    v.push(Entry { name: "P225", tags: &["bits", "endian", "order", "seek", "ty_int"], decl: d_P225, ops: ops::<P225>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P228", tags: &["bits", "count", "endian", "order", "seek", "ty_int", "ty_list", "ty_ptr"], decl: d_P228, ops: ops::<P228>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P231", tags: &["bits", "cond", "endian", "order", "seek", "ty_int"], decl: d_P231, ops: ops::<P231>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P234", tags: &["bits", "endian", "order", "seek", "ty_int"], decl: d_P234, ops: ops::<P234>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P237", tags: &["bits", "endian", "order", "pad", "seek", "ty_int"], decl: d_P237, ops: ops::<P237>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P240", tags: &["bits", "endian", "order", "pad", "seek", "ty_int"], decl: d_P240, ops: ops::<P240>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P243", tags: &["bits", "cond", "default", "endian", "order", "seek", "skip", "ty_int"], decl: d_P243, ops: ops::<P243>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P246", tags: &["bits", "cond", "default", "endian", "order", "seek", "skip", "ty_int", "writer"], decl: d_P246, ops: ops::<P246>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P249", tags: &["bits", "bits_read", "count", "endian", "order", "seek", "ty_int", "ty_list", "update"], decl: d_P249, ops: ops::<P249>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P252", tags: &["bits", "cond", "default", "endian", "order", "seek", "skip", "ty_int"], decl: d_P252, ops: ops::<P252>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P255", tags: &["bits", "count", "endian", "order", "seek", "ty_int", "ty_list", "writer"], decl: d_P255, ops: ops::<P255>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P258", tags: &["bits", "endian", "order", "seek", "ty_int"], decl: d_P258, ops: ops::<P258>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P261", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "endian", "order", "temp", "temp_value", "ty_int", "ty_list"], decl: d_P261, ops: ops::<P261>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P264", tags: &["bits", "bytes", "cond", "count", "endian", "order", "pad", "skip", "ty_int", "ty_list", "ty_ptr"], decl: d_P264, ops: ops::<P264>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P267", tags: &["bits", "cond", "count", "default", "endian", "order", "skip", "temp", "temp_value", "ty_int", "ty_list"], decl: d_P267, ops: ops::<P267>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P270", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "default", "endian", "map", "order", "skip", "temp", "temp_value", "ty_int", "ty_list", "update"], decl: d_P270, ops: ops::<P270>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P273", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "default", "endian", "order", "pad", "reader", "skip", "ty_int", "ty_list", "until", "writer"], decl: d_P273, ops: ops::<P273>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P276", tags: &["bits", "cond", "endian", "order", "skip", "ty_int", "update", "writer"], decl: d_P276, ops: ops::<P276>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P279", tags: &["assert", "assert_eq", "bits", "cond", "default", "endian", "order", "skip", "ty_int"], decl: d_P279, ops: ops::<P279>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P282", tags: &["bits", "endian", "magic", "order", "pad", "reader", "ty_int"], decl: d_P282, ops: ops::<P282>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P285", tags: &["bits", "bits_read", "cond", "count", "default", "endian", "map", "order", "skip", "temp", "temp_value", "ty_int", "ty_list"], decl: d_P285, ops: ops::<P285>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P288", tags: &["bits", "count", "endian", "order", "seek", "ty_arr", "ty_int", "ty_list", "ty_ptr"], decl: d_P288, ops: ops::<P288>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P291", tags: &["bits", "endian", "order", "pad", "reader", "seek", "ty_int"], decl: d_P291, ops: ops::<P291>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P294", tags: &["bits", "bytes", "bytes_read", "cond", "endian", "order", "seek", "skip", "ty_int", "ty_list", "ty_tup"], decl: d_P294, ops: ops::<P294>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P297", tags: &["bits", "bytes", "cond", "endian", "order", "pad", "skip", "ty_arr", "ty_int"], decl: d_P297, ops: ops::<P297>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P300", tags: &["bits", "count", "default", "endian", "order", "pad", "skip", "ty_int", "ty_list", "ty_ptr", "update"], decl: d_P300, ops: ops::<P300>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P303", tags: &["bits", "cond", "default", "endian", "order", "pad", "reader", "ty_int", "update", "writer"], decl: d_P303, ops: ops::<P303>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P306", tags: &["bits", "cond", "default", "endian", "map", "order", "pad", "skip", "ty_int", "ty_opt", "update"], decl: d_P306, ops: ops::<P306>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P309", tags: &["bits", "bytes", "bytes_read", "cond", "count", "default", "endian", "order", "pad", "skip", "temp", "temp_value", "ty_int", "ty_list", "writer"], decl: d_P309, ops: ops::<P309>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P312", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "default", "endian", "order", "skip", "ty_int", "ty_list", "ty_tup", "until", "update", "writer"], decl: d_P312, ops: ops::<P312>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P315", tags: &["assert", "bits", "default", "endian", "order", "reader", "skip", "ty_int", "update"], decl: d_P315, ops: ops::<P315>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P318", tags: &["assert_eq", "bits", "cond", "count", "default", "endian", "magic", "order", "skip", "ty_int", "ty_list", "ty_ptr"], decl: d_P318, ops: ops::<P318>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P321", tags: &["bits", "bytes", "cond", "count", "default", "endian", "order", "ty_int", "ty_list", "ty_ptr"], decl: d_P321, ops: ops::<P321>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P324", tags: &["bits", "cond", "count", "default", "endian", "order", "seek", "ty_int", "ty_list", "ty_ptr"], decl: d_P324, ops: ops::<P324>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P327", tags: &["bits", "cond", "endian", "order", "pad", "seek", "skip", "ty_int"], decl: d_P327, ops: ops::<P327>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P330", tags: &["bits", "cond", "count", "default", "endian", "order", "seek", "skip", "ty_int", "ty_list"], decl: d_P330, ops: ops::<P330>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P333", tags: &["bits", "endian", "order", "seek", "ty_int"], decl: d_P333, ops: ops::<P333>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P336", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "default", "endian", "order", "ty_int", "ty_list", "ty_ptr"], decl: d_P336, ops: ops::<P336>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P339", tags: &["bits", "cond", "count", "default", "map", "order", "pad", "ty_int", "ty_list", "until"], decl: d_P339, ops: ops::<P339>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P342", tags: &["bits", "bits_read", "cond", "map", "order", "pad", "skip", "ty_int", "ty_list", "ty_tup", "writer"], decl: d_P342, ops: ops::<P342>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P345", tags: &["bits", "cond", "default", "order", "pad", "reader", "skip", "temp", "temp_value", "ty_int", "update"], decl: d_P345, ops: ops::<P345>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P348", tags: &["bits", "bits_read", "cond", "order", "skip", "ty_int", "ty_list", "ty_tup", "writer"], decl: d_P348, ops: ops::<P348>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P351", tags: &["assert_eq", "bits", "default", "order", "reader", "skip", "ty_int", "update"], decl: d_P351, ops: ops::<P351>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P354", tags: &["bits", "magic", "order", "ty_int", "writer"], decl: d_P354, ops: ops::<P354>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P357", tags: &["bits", "endian", "order", "seek", "ty_arr", "ty_int"], decl: d_P357, ops: ops::<P357>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P360", tags: &["bits", "cond", "order", "pad", "seek", "ty_int", "ty_opt"], decl: d_P360, ops: ops::<P360>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P363", tags: &["bits", "cond", "order", "seek", "skip", "ty_int", "ty_tup", "writer"], decl: d_P363, ops: ops::<P363>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P366", tags: &["bits", "magic", "order", "seek", "ty_int"], decl: d_P366, ops: ops::<P366>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P369", tags: &["bits", "bytes", "endian", "order", "skip", "ty_arr", "ty_int", "ty_ptr"], decl: d_P369, ops: ops::<P369>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P372", tags: &["bits", "bytes", "count", "endian", "order", "pad", "skip", "ty_int", "ty_list", "ty_ptr"], decl: d_P372, ops: ops::<P372>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P375", tags: &["bits", "bytes", "bytes_read", "cond", "endian", "order", "skip", "ty_int", "ty_list", "ty_tup", "writer"], decl: d_P375, ops: ops::<P375>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P378", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "endian", "order", "pad", "ty_int", "ty_list", "ty_nz", "ty_opt", "writer"], decl: d_P378, ops: ops::<P378>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P381", tags: &["bits", "bits_read", "cond", "default", "endian", "pad", "reader", "skip", "ty_int", "ty_list", "until", "update"], decl: d_P381, ops: ops::<P381>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P384", tags: &["bits", "cond", "count", "endian", "skip", "temp", "temp_value", "ty_int", "ty_list", "writer"], decl: d_P384, ops: ops::<P384>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P387", tags: &["assert_eq", "bits", "cond", "default", "endian", "magic", "pad", "skip", "ty_int"], decl: d_P387, ops: ops::<P387>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P390", tags: &["bits", "cond", "default", "endian", "magic", "skip", "temp", "temp_value", "ty_int"], decl: d_P390, ops: ops::<P390>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P393", tags: &["bits", "bits_read", "cond", "count", "default", "endian", "map", "order", "skip", "temp", "temp_value", "ty_int", "ty_list"], decl: d_P393, ops: ops::<P393>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P396", tags: &["bits", "count", "endian", "seek", "ty_int", "ty_list", "ty_ptr"], decl: d_P396, ops: ops::<P396>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P399", tags: &["bits", "cond", "endian", "order", "seek", "ty_int", "ty_nz", "ty_opt"], decl: d_P399, ops: ops::<P399>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P402", tags: &["bits", "cond", "count", "default", "endian", "seek", "skip", "ty_int", "ty_list"], decl: d_P402, ops: ops::<P402>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P405", tags: &["assert_eq", "bits", "endian", "seek", "ty_int"], decl: d_P405, ops: ops::<P405>(), deku_id: None, size_bits: None });
    v
}
