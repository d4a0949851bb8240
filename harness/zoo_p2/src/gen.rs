// @generated by gen_zoo.py
#![allow(clippy::all, unused_parens, unused_variables, dead_code, non_camel_case_types, non_snake_case, unused_imports, unused_mut)]
use deku::prelude::*;
use std::sync::OnceLock;
use vcore::custom;
use vcore::model::*;
use vcore::ops::{deku_id, ops, Entry};
use vcore::val::{Conv, Val};

#[derive(DekuRead, DekuWrite)]
pub struct P2 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, cond = "((*k as i128) < 2)")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read))]
    pub f4: [u32; 2],
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)")]
    pub f6: [u32; 2],
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip(write))]
    pub f8: [u32; 2],
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)")]
    pub f10: [u32; 2],
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big", bits = 11)]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P2 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P2 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P2() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P2", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, ..FieldD::new("f4", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, ..FieldD::new("f6", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, ..FieldD::new("f8", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f10", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(11)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P5 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", pad_bits_after = "3")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", pad_bits_before = "((*k as i128) + 1)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big", skip, default = "(6) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", skip(read))]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P5 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P5 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P5() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P5", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bits_after: Some(l(3)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), skip: Skip::Read, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P8 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 11, count = "k")]
    pub f2: Box<[u32]>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, cond = "((*k as i128) < 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bits = 11)]
    pub f8: i32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", bits = 11)]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = 11, map = "custom::map_wide")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P8 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P8 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P8() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P8", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("f8", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(11)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct P11 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", bits = 11)]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11)]
    pub f4: (u32, u32,),
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bits = 11, update = "((self.k as i128) + 7)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = 11, count = "k")]
    pub f10: Vec<u8>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = 11, count = "k")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P11 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P11 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f3: Conv::fv(&i[2]), f4: Conv::fv(&i[3]), f5: Conv::fv(&i[4]), f6: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P11() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P11", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), lim: Lim::Count(X::F(1)), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P14 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", count = "k")]
    pub f2: Box<[u32]>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", pad_bytes_after = "((*k as i128) % 2)")]
    pub f4: Box<[u32]>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", pad_bytes_before = "1")]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", pad_bits_after = "3")]
    pub f8: Box<[u32]>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", pad_bits_before = "((*k as i128) + 1)")]
    pub f10: Box<[u32]>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", skip)]
    pub f12: Box<[u32]>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P14 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P14 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P14() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P14", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P17 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, pad_bytes_before = "1")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, pad_bits_after = "3")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, pad_bits_before = "((*k as i128) + 1)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, skip, default = "(6) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bytes = "3", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bytes = "3", skip(read))]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P17 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P17 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P17() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P17", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bytes_before: Some(l(1)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bits_after: Some(l(3)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), skip: Skip::Read, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P20 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_before = "1", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_after = "3", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P20 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P20 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P20() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P20", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), reader: Some(custom::m_rd_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P23 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", cond = "((*k as i128) < 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", cond = "((*k as i128) < 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", cond = "((*k as i128) < 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", cond = "((*k as i128) < 2)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(cond = "((*k as i128) < 2)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(cond = "((*k as i128) < 2)")]
    pub f12: (u32, u32,),
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P23 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P23 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P23() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P23", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), reader: Some(custom::m_rd_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f12", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P26 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)")]
    pub f2: i32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip, default = "(6) as i32")]
    pub f4: i32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as i32")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip(read))]
    pub f8: i32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as i32")]
    pub f10: i32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip(write))]
    pub f12: i32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P26 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P26 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P26() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P26", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(l(6))), ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, ..FieldD::new("f8", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::Add, X::F(1), l(4)))), ..FieldD::new("f10", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, ..FieldD::new("f12", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct P29 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", skip(read))]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", skip(write))]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", skip(write), cond = "((*k as i128) < 2)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", endian = "little")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P29 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P29 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P29() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P29", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), skip: Skip::Read, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), skip: Skip::Write, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P32 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip, default = "(6) as u32", map = "custom::map_wide")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", map = "custom::map_wide")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip(read), map = "custom::map_wide")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", map = "custom::map_wide")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip(write), map = "custom::map_wide")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P32 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P32 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P32() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P32", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct P35 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", skip(write))]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", skip(write), cond = "((*k as i128) < 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", bit_order = "msb")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "msb")]
    pub f10: (u32, u32,),
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "msb", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P35 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P35 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P35() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P35", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), skip: Skip::Write, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f10", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P38 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", cond = "((*k as i128) != 1)")]
    pub f2: Option<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", pad_bytes_after = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", pad_bytes_after = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", pad_bytes_after = "((*k as i128) % 2)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip, default = "(6) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P38 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P38 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P38() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P38", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f2", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), reader: Some(custom::m_rd_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P41 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", pad_bytes_after = "((*k as i128) % 2)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_before = "1", pad_bits_after = "3")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", pad_bytes_before = "1")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_before = "1", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_before = "1", skip, default = "(6) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P41 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P41 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P41() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P41", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), pad_bits_after: Some(l(3)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), pad_bytes_before: Some(l(1)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), reader: Some(custom::m_rd_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P44 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", pad_bytes_before = "1")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", pad_bits_after = "3")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_after = "3", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_after = "3", skip, default = "(6) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_after = "3", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P44 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P44 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P44() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P44", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), pad_bits_after: Some(l(3)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), reader: Some(custom::m_rd_wide), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P47 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_after = "3", writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip, default = "(6) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip(read))]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P47 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P47 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P47() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P47", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), reader: Some(custom::m_rd_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), skip: Skip::Read, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct P50 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), reader = "custom::rd_wide(deku::reader, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip(write), reader = "custom::rd_wide(deku::reader, *k)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P50 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P50 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P50() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P50", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), reader: Some(custom::m_rd_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, reader: Some(custom::m_rd_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), reader: Some(custom::m_rd_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, reader: Some(custom::m_rd_wide), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, reader: Some(custom::m_rd_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, reader: Some(custom::m_rd_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P53 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", update = "((self.k as i128) + 7)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", skip, cond = "((*k as i128) < 2)")]
    pub f4: Vec<u8>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", skip, cond = "((*k as i128) < 2)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", skip, cond = "((*k as i128) < 2)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", skip, cond = "((*k as i128) < 2)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", writer = "custom::wr_wide(deku::writer, *f12, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P53 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P53 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P53() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P53", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::All, ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), skip: Skip::All, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), writer: Some(custom::m_wr_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P56 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", skip(read), cond = "((*k as i128) != 1)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", skip(read), cond = "((*k as i128) != 1)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", skip(read), cond = "((*k as i128) != 1)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", writer = "custom::wr_wide(deku::writer, *f8, *k)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip(write))]
    pub f10: (u32, u32,),
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip(write))]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P56 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P56 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P56() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P56", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::Read, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), skip: Skip::Read, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), writer: Some(custom::m_wr_wide), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, ..FieldD::new("f10", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::Write, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct P59 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", skip(write), cond = "((*k as i128) < 2)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", writer = "custom::wr_wide(deku::writer, *f6, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(update = "((self.k as i128) + 7)", writer = "custom::wr_wide(deku::writer, *f8, *k)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    pub f10: u8,
}
impl Conv for P59 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P59 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]) } }
}
pub fn d_P59() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P59", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, writer: Some(custom::m_wr_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), writer: Some(custom::m_wr_wide), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f10", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct P62 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert = "((*f2 as i128) != 9)")]
    pub f2: i32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(assert = "((*f6 as i128) != 9)", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P62 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P62 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P62() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P62", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(2), l(9))), ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), assert: Some(b(Bop::Ne, X::F(4), l(9))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(6), l(9))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P65 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert = "((*f2 as i128) != 9)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip, default = "(6) as u32", assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", assert = "((*f6 as i128) != 9)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P65 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P65 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P65() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P65", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(2), l(9))), reader: Some(custom::m_rd_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(4), l(9))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert: Some(b(Bop::Ne, X::F(6), l(9))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct P68 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P68 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P68 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P68() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P68", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P71 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P71 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P71 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P71() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P71", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P74 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as u32", update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P74 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P74 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P74() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P74", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::Write, hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::Write, hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P77 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) < 2)", magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(magic = b"\xa5\x3c")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P77 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P77 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P77() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P77", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P80 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_before = "1", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_after = "3", magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P80 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P80 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P80() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P80", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct P83 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(magic = b"\xa5\x3c")]
    pub f6: (u32, u32,),
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P83 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P83 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f5: Conv::fv(&i[4]), f6: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]) } }
}
pub fn d_P83() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P83", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P86 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(magic = b"\xa5\x3c", writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P86 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P86 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P86() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P86", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P89 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", pad_bytes_before = "1")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", pad_bits_after = "3")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", pad_bits_before = "((*k as i128) + 1)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "lsb", skip, default = "(6) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "lsb", skip(read))]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P89 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P89 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P89() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P89", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), pad_bytes_before: Some(l(1)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), pad_bits_after: Some(l(3)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), skip: Skip::Read, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct P92 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P92 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P92 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P92() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P92", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), assert: Some(b(Bop::Ne, X::F(2), l(9))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P95 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 11, seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P95 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P95 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P95() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P95", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P98 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P98 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P98 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P98() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P98", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P101 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)")]
    pub f2: i32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_end = "-10")]
    pub f4: i32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_start = "2")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P101 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P101 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P101() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P101", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P104 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P104 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P104 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P104() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P104", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P107 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P107 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P107 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P107() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P107", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P110 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P110 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P110 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P110() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P110", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P113 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), seek_from_current = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", seek_from_current = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P113 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P113 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P113() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P113", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P116 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)", writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip, default = "(6) as u32", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", seek_from_end = "-10")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P116 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P116 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P116() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P116", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P119 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(update = "((self.k as i128) + 7)", seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", seek_from_end = "-10")]
    pub f4: Vec<u8>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", seek_from_end = "-10")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P119 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P119 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P119() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P119", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P122 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", seek_from_start = "2")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), seek_from_start = "2")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P122 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P122 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P122() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P122", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P125 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", seek_from_start = "2")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_start = "2", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    pub f6: u8,
}
impl Conv for P125 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P125 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_P125() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P125", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct P128 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P128 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P128 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P128() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P128", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P131 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, cond = "((*k as i128) < 2)")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read))]
    pub f4: [u32; 2],
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)")]
    pub f6: [u32; 2],
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip(write))]
    pub f8: [u32; 2],
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)")]
    pub f10: [u32; 2],
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big", bits = 11)]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P131 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P131 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P131() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P131", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, ..FieldD::new("f4", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, ..FieldD::new("f6", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, ..FieldD::new("f8", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f10", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(11)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P134 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", pad_bits_before = "((*k as i128) + 1)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", skip, default = "(6) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big", skip(read))]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big", skip(write))]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P134 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P134 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P134() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P134", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), skip: Skip::Read, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), skip: Skip::Write, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P137 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 11, cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, cond = "((*k as i128) < 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11)]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", bits = 11)]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb", bits = 11)]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = 11, map = "custom::map_wide")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P137 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P137 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P137() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P137", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(11)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(11)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P140 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", bits = 11)]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11)]
    pub f4: (u32, u32,),
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bits = 11, update = "((self.k as i128) + 7)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = 11, count = "k")]
    pub f10: Vec<u8>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = 11, count = "k")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P140 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P140 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f3: Conv::fv(&i[2]), f4: Conv::fv(&i[3]), f5: Conv::fv(&i[4]), f6: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P140() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P140", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), lim: Lim::Count(X::F(1)), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P143 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", count = "k")]
    pub f2: Box<[u32]>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", pad_bytes_after = "((*k as i128) % 2)")]
    pub f4: Box<[u32]>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", pad_bytes_before = "1")]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", pad_bits_after = "3")]
    pub f8: Box<[u32]>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", pad_bits_before = "((*k as i128) + 1)")]
    pub f10: Box<[u32]>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", skip)]
    pub f12: Box<[u32]>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P143 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P143 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P143() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P143", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P146 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, cond = "((*k as i128) != 1)")]
    pub f2: Option<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, pad_bytes_after = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, pad_bytes_before = "1")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, pad_bits_after = "3")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bytes = "3", pad_bits_before = "((*k as i128) + 1)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bytes = "3", skip, default = "(6) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P146 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P146 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P146() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P146", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f2", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bytes_before: Some(l(1)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bits_after: Some(l(3)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P149 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", map = "custom::map_wide")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_before = "1", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_after = "3", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P149 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P149 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P149() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P149", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P152 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", cond = "((*k as i128) < 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) < 2)", map = "custom::map_wide")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", cond = "((*k as i128) < 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bytes_before = "1", cond = "((*k as i128) < 2)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_after = "3", cond = "((*k as i128) < 2)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", cond = "((*k as i128) < 2)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P152 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P152 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P152() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P152", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P155 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_before = "1")]
    pub f2: i32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_after = "3")]
    pub f4: i32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip, default = "(6) as i32")]
    pub f8: i32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as i32")]
    pub f10: i32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip(read))]
    pub f12: i32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P155 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P155 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P155() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P155", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(l(6))), ..FieldD::new("f8", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(l(2))), ..FieldD::new("f10", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, ..FieldD::new("f12", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P158 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", skip, default = "(6) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", skip(read))]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", skip(write))]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", skip(write), cond = "((*k as i128) < 2)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P158 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P158 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P158() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P158", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), skip: Skip::Read, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), skip: Skip::Write, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P161 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", pad_bytes_before = "1")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", pad_bits_after = "3")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", pad_bits_before = "((*k as i128) + 1)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "lsb", skip, default = "(6) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "lsb", skip(read))]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P161 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P161 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P161() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P161", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), pad_bytes_before: Some(l(1)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), pad_bits_after: Some(l(3)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), skip: Skip::Read, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P164 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", map = "custom::map_wide")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", map = "custom::map_wide")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", map = "custom::map_wide")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip, default = "(6) as u32", map = "custom::map_wide")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", map = "custom::map_wide")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P164 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P164 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P164() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P164", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P167 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_after = "3", pad_bytes_after = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", pad_bytes_after = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip, default = "(6) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", skip(read))]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P167 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P167 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P167() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P167", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), reader: Some(custom::m_rd_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), skip: Skip::Read, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P170 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_before = "1", pad_bits_after = "3")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", pad_bytes_before = "1")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_before = "1", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bytes_before = "1", skip, default = "(6) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_before = "1", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_before = "1", skip(read))]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P170 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P170 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P170() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P170", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), pad_bits_after: Some(l(3)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), pad_bytes_before: Some(l(1)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), reader: Some(custom::m_rd_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), skip: Skip::Read, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P173 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", pad_bits_after = "3")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_after = "3", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", skip, default = "(6) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_after = "3", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_after = "3", skip(read))]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_after = "3", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P173 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P173 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P173() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P173", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), pad_bits_after: Some(l(3)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), reader: Some(custom::m_rd_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), skip: Skip::Read, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P176 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip, default = "(6) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip(read))]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip(write))]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", skip(write), cond = "((*k as i128) < 2)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P176 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P176 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P176() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P176", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), skip: Skip::Read, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), skip: Skip::Write, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P179 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), reader = "custom::rd_wide(deku::reader, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(update = "((self.k as i128) + 7)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(reader = "custom::rd_wide(deku::reader, *k)", writer = "custom::wr_wide(deku::writer, *f12, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P179 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P179 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P179() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P179", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), reader: Some(custom::m_rd_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, reader: Some(custom::m_rd_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, reader: Some(custom::m_rd_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, reader: Some(custom::m_rd_wide), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), reader: Some(custom::m_rd_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { reader: Some(custom::m_rd_wide), writer: Some(custom::m_wr_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P182 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", skip, cond = "((*k as i128) < 2)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", skip, cond = "((*k as i128) < 2)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", skip, cond = "((*k as i128) < 2)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", writer = "custom::wr_wide(deku::writer, *f8, *k)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip(read))]
    pub f10: (u32, u32,),
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip(read))]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P182 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P182 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P182() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P182", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::All, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), skip: Skip::All, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), writer: Some(custom::m_wr_wide), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, ..FieldD::new("f10", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::Read, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P185 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", skip(read), cond = "((*k as i128) != 1)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write))]
    pub f6: (u32, u32,),
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip(write))]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip(write), update = "((self.k as i128) + 7)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", skip(write))]
    pub f12: Vec<u8>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P185 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P185 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P185() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P185", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, ..FieldD::new("f6", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::Write, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::Write, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P188 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(update = "((self.k as i128) + 7)", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    pub f6: u8,
}
impl Conv for P188 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P188 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f3: Conv::fv(&i[2]), f4: Conv::fv(&i[3]), f5: Conv::fv(&i[4]), f6: Conv::fv(&i[5]) } }
}
pub fn d_P188() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P188", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P191 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(assert = "((*f6 as i128) != 9)", map = "custom::map_wide")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P191 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P191 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P191() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P191", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), assert: Some(b(Bop::Ne, X::F(2), l(9))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), assert: Some(b(Bop::Ne, X::F(4), l(9))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(6), l(9))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P194 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", assert = "((*f6 as i128) != 9)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P194 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P194 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P194() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P194", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert: Some(b(Bop::Ne, X::F(2), l(9))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(4), l(9))), skip: Skip::Read, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), assert: Some(b(Bop::Ne, X::F(6), l(9))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P197 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) < 2)", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P197 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P197 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P197() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P197", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P200 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip, default = "(6) as u32", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P200 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P200 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P200() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P200", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), reader: Some(custom::m_rd_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P203 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as u32", writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P203 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P203 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P203() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P203", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P206 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", magic = b"\xa5\x3c")]
    pub f2: Box<[u32]>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P206 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P206 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P206() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P206", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P209 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P209 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P209 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P209() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P209", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P212 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P212 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P212 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]) } }
}
pub fn d_P212() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P212", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P215 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", magic = b"\xa5\x3c")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(magic = b"\xa5\x3c", writer = "custom::wr_wide(deku::writer, *f4, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    pub f6: u8,
}
impl Conv for P215 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P215 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_P215() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P215", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), writer: Some(custom::m_wr_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P218 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", pad_bytes_after = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", pad_bytes_before = "1")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", pad_bits_after = "3")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "msb", pad_bits_before = "((*k as i128) + 1)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "msb", skip, default = "(6) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "msb", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P218 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P218 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P218() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P218", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), pad_bytes_before: Some(l(1)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), pad_bits_after: Some(l(3)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P221 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P221 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P221 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P221() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P221", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P224 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_end = "-10")]
    pub f4: [u32; 2],
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_start = "2")]
    pub f6: [u32; 2],
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P224 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P224 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P224() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P224", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P227 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)")]
    pub f2: Box<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_end = "-10")]
    pub f4: Box<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_start = "2")]
    pub f6: Box<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P227 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P227 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P227() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P227", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P230 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P230 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P230 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P230() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P230", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P233 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P233 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P233 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P233() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P233", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P236 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) != 1)", seek_from_current = "((*k as i128) % 2)")]
    pub f2: Option<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) != 1)", seek_from_end = "-10")]
    pub f4: Option<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) != 1)", seek_from_start = "2")]
    pub f6: Option<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P236 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P236 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P236() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P236", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P239 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_after = "3", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bits_after = "3", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P239 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P239 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P239() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P239", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P242 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, default = "(6) as u32", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", seek_from_current = "((*k as i128) % 2)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), seek_from_current = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P242 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P242 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P242() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P242", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P245 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", seek_from_current = "((*k as i128) % 2)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", seek_from_current = "((*k as i128) % 2)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", seek_from_current = "((*k as i128) % 2)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P245 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P245 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P245() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P245", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P248 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_end = "-10")]
    pub f4: (u32, u32,),
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", seek_from_end = "-10")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P248 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P248 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P248() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P248", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P251 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, default = "(6) as u32", seek_from_start = "2")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", seek_from_start = "2")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P251 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P251 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P251() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P251", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P254 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", seek_from_start = "2")]
    pub f2: Vec<u8>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", seek_from_start = "2")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", seek_from_start = "2")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P254 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P254 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P254() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P254", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct P257 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(magic = b"\xa5\x3c", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(magic = b"\xa5\x3c", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(magic = b"\xa5\x3c", seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P257 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P257 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P257() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P257", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P260 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", cond = "((*k as i128) < 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big")]
    pub f4: i32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big", bit_order = "lsb")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big", map = "custom::map_wide")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big", skip(write))]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P260 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P260 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P260() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P260", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), skip: Skip::Write, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P263 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", bits = 11)]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11, count = "k")]
    pub f4: Vec<u8>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, count = "k")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3)]
    pub f8: Box<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)")]
    pub f10: Box<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_after = "3")]
    pub f12: Box<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P263 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P263 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f3: Conv::fv(&i[2]), f4: Conv::fv(&i[3]), f5: Conv::fv(&i[4]), f6: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P263() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P263", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P266 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", cond = "((*k as i128) >= 2)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", cond = "((*k as i128) >= 2)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) < 2)")]
    pub f6: i32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", cond = "((*k as i128) < 2)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(cond = "((*k as i128) < 2)", map = "custom::map_wide")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", cond = "((*k as i128) < 2)")]
    pub f12: Vec<u8>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P266 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P266 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P266() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P266", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P269 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", bytes = 3, bytes_read = "((*k as i128) * 3)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", count = "k")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", cond = "((*k as i128) != 1)")]
    pub f6: Option<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "lsb", pad_bytes_after = "((*k as i128) % 2)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb", pad_bits_after = "3")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "lsb", skip, default = "(6) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P269 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P269 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P269() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P269", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f6", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), pad_bits_after: Some(l(3)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P272 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_before = "1", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", pad_bytes_before = "1")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_after = "3", skip(read))]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_after = "3", skip(write), cond = "((*k as i128) < 2)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_after = "3")]
    pub f12: (u32, u32,),
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P272 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P272 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P272() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P272", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), pad_bytes_before: Some(l(1)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), skip: Skip::Read, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("f12", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P275 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", skip, cond = "((*k as i128) < 2)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), update = "((self.k as i128) + 7)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip(read), cond = "((*k as i128) != 1)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", skip(read), cond = "((*k as i128) != 1)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", skip(write))]
    pub f10: Vec<u8>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", skip(write))]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P275 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P275 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P275() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P275", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::Read, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::Read, ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::Read, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P278 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert = "((*f2 as i128) != 9)")]
    pub f2: i32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(assert = "((*f6 as i128) != 9)", map = "custom::map_wide")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P278 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P278 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P278() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P278", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(2), l(9))), ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), assert: Some(b(Bop::Ne, X::F(4), l(9))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(6), l(9))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P281 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as u32", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) != 1)", magic = b"\xa5\x3c")]
    pub f6: Option<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P281 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P281 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P281() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P281", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), magic: Some(b"\xa5\x3c"), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P284 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", bit_order = "msb")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", bits = 11)]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", bytes = 3)]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "msb", cond = "((*k as i128) < 2)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "msb")]
    pub f10: i32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", bit_order = "msb")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P284 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P284 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P284() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P284", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(11)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bytes: Some(l(3)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f10", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P287 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P287 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P287 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P287() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P287", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), assert: Some(b(Bop::Ne, X::F(2), l(9))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P290 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(cond = "((*k as i128) != 1)", seek_from_end = "-10")]
    pub f2: Option<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_before = "1", seek_from_current = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P290 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P290 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P290() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P290", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P293 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, default = "(6) as u32", seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(update = "((self.k as i128) + 7)", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P293 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P293 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P293() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P293", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(7))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct P296 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(magic = b"\xa5\x3c", seek_from_start = "2")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P296 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P296 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P296() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P296", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P299 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", bytes = 3, bytes_read = "((*k as i128) * 3)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", bits = 11)]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "msb", bits = 11)]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = 11, cond = "((*k as i128) != 1)")]
    pub f10: Option<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = 11, pad_bytes_after = "((*k as i128) % 2)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P299 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P299 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P299() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P299", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(11)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(11)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Ne, X::F(1), l(1))), ..FieldD::new("f10", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P302 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, skip(write))]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", bytes = 3)]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, count = "k")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(cond = "((*k as i128) >= 2)")]
    pub f10: (u32, u32,),
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bytes = "3", bytes_read = "((*k as i128) * 3)", cond = "((*k as i128) >= 2)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P302 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P302 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P302() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P302", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), skip: Skip::Write, ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), ..FieldD::new("f10", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Ge, X::F(1), l(2))), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P305 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", pad_bits_after = "3")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", skip, default = "(6) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", update = "((self.k as i128) + 7)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", bytes = "3", bytes_read = "((*k as i128) * 3)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", map = "custom::map_wide")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P305 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P305 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P305() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P305", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), pad_bits_after: Some(l(3)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P308 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", pad_bytes_after = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", pad_bytes_after = "((*k as i128) % 2)")]
    pub f4: Vec<u8>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", pad_bytes_after = "((*k as i128) % 2)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bytes_before = "1", skip(read))]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bytes_before = "1", skip(write), cond = "((*k as i128) < 2)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bytes_before = "1")]
    pub f12: (u32, u32,),
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P308 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P308 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f3: Conv::fv(&i[2]), f4: Conv::fv(&i[3]), f5: Conv::fv(&i[4]), f6: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P308() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P308", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), lim: Lim::Count(X::F(1)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), skip: Skip::Read, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("f12", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P311 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), reader = "custom::rd_wide(deku::reader, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", skip)]
    pub f8: Vec<u8>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", skip)]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip, cond = "((*k as i128) < 2)", default = "(2) as u32", update = "((self.k as i128) + 7)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P311 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P311 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f7: Conv::fv(&i[6]), f8: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P311() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P311", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), reader: Some(custom::m_rd_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, reader: Some(custom::m_rd_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, reader: Some(custom::m_rd_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P314 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", assert = "((*f4 as i128) != 9)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", assert = "((*f6 as i128) != 9)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P314 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P314 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P314() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P314", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), assert: Some(b(Bop::Ne, X::F(2), l(9))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), assert: Some(b(Bop::Ne, X::F(4), l(9))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), assert: Some(b(Bop::Ne, X::F(6), l(9))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P317 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert_eq = "(((*k as i128) + 1)) as i32")]
    pub f2: i32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P317 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P317 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P317() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P317", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::Add, X::F(1), l(1))), hint: Hint::Range(1, 4), ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P320 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", magic = b"\xa5\x3c")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", magic = b"\xa5\x3c")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P320 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P320 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P320() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P320", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P323 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", seek_from_start = "2")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, seek_from_start = "2")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P323 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P323 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P323() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P323", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P326 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_start = "2", map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", seek_from_start = "2")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_before = "1", seek_from_end = "-10")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P326 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P326 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P326() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P326", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(2))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P329 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", seek_from_end = "-10")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", seek_from_end = "-10")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", seek_from_end = "-10")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P329 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P329 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P329() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P329", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct P332 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(magic = b"\xa5\x3c", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P332 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P332 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P332() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P332", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P335 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "big", bit_order = "lsb")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "big", pad_bytes_before = "1")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "big", pad_bits_before = "((*k as i128) + 1)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "big", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "big", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P335 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P335 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P335() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P335", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bytes_before: Some(l(1)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P338 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", count = "k")]
    pub f2: Box<[u32]>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", skip, cond = "((*k as i128) < 2)")]
    pub f4: Box<[u32]>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(count = "k", skip(write))]
    pub f6: Box<[u32]>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", bytes = 3)]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as i32")]
    pub f10: i32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P338 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P338 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P338() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P338", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::All, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(3)), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::Add, X::F(1), l(1)))), ..FieldD::new("f10", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P341 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", pad_bits_before = "((*k as i128) + 1)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(endian = "little", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(endian = "little", bytes = "3", bytes_read = "((*k as i128) * 3)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "lsb", skip(read))]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P341 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P341 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P341() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P341", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), skip: Skip::Read, ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P344 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", update = "((self.k as i128) + 7)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", skip, cond = "((*k as i128) < 2)", default = "(2) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_before = "1", skip(write))]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(temp, temp_value = "(((*k as i128) + 3)) as u32", pad_bytes_before = "1")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", pad_bytes_before = "1")]
    pub f10: Vec<u8>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", pad_bytes_before = "1")]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P344 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P344 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f9: Conv::fv(&i[8]), f10: Conv::fv(&i[9]), f11: Conv::fv(&i[10]), f12: Conv::fv(&i[11]), f13: Conv::fv(&i[12]), f14: Conv::fv(&i[13]) } }
}
pub fn d_P344() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P344", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), skip: Skip::Write, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), temp_value: Some(b(Bop::And, b(Bop::Add, X::F(1), l(3)), l(0xffffffff))), temp: true, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Count(X::F(1)), ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Count(X::F(1)), ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P347 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", skip, cond = "((*k as i128) < 2)")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read))]
    pub f4: (u32, u32,),
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), writer = "custom::wr_wide(deku::writer, *f6, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(count = "k", skip(read), cond = "((*k as i128) != 1)")]
    pub f8: Vec<u8>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(count = "k", skip(read), cond = "((*k as i128) != 1)")]
    pub f10: Vec<u32>,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(until = "|v: &u32| (((*v as i128) & 3) != 0)", skip(write))]
    pub f12: Vec<u32>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P347 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P347 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P347() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P347", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), skip: Skip::All, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, writer: Some(custom::m_wr_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f10", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), skip: Skip::Write, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P350 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bits_after = "3", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P350 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P350 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P350() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P350", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), assert: Some(b(Bop::Ne, X::F(2), l(9))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P353 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", magic = b"\xa5\x3c")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(magic = b"\xa5\x3c")]
    pub f6: (u32, u32,),
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P353 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P353 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P353() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P353", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, magic: Some(b"\xa5\x3c"), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P356 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "msb", pad_bits_before = "((*k as i128) + 1)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f6: Vec<u32>,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "msb", bits = 24, bits_read = "((*k as i128) * 24)")]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    pub f10: u8,
}
impl Conv for P356 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P356 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]) } }
}
pub fn d_P356() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P356", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f10", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P359 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)", map = "custom::map_wide")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P359 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P359 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P359() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P359", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P362 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", seek_from_current = "((*k as i128) % 2)")]
    pub f2: Vec<u8>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(count = "k", seek_from_current = "((*k as i128) % 2)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(read), seek_from_end = "-10")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P362 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P362 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P362() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P362", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct P365 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert = "((*f2 as i128) != 9)", seek_from_current = "((*k as i128) % 2)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P365 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P365 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P365() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P365", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(2), l(9))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P368 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big")]
    pub f2: [u32; 2],
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bits = 11)]
    pub f4: [u32; 2],
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(cond = "((*k as i128) < 2)")]
    pub f6: [u32; 2],
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(endian = "little")]
    pub f8: [u32; 2],
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "msb")]
    pub f10: [u32; 2],
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(skip, cond = "((*k as i128) < 2)")]
    pub f12: [u32; 2],
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P368 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P368 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P368() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P368", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("f4", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f6", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("f8", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f10", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::All, ..FieldD::new("f12", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P371 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", bits = 11)]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "msb", bits = 11)]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bits = 11, skip(read))]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bits = 11, skip(write), cond = "((*k as i128) < 2)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bits = 11)]
    pub f10: (u32, u32,),
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bits = 11, writer = "custom::wr_wide(deku::writer, *f12, *k)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P371 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P371 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P371() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P371", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(11)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(11)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), skip: Skip::Read, ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("f10", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), writer: Some(custom::m_wr_wide), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P374 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bytes = 3, skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bytes = 3, until = "|v: &u32| (((*v as i128) & 3) != 0)")]
    pub f4: Vec<u32>,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_after = "((*k as i128) % 2)", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bits_after = "3", cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", update = "((self.k as i128) + 7)")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P374 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P374 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P374() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P374", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Until(b(Bop::Ne, b(Bop::And, X::Elem, l(3)), l(0))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), reader: Some(custom::m_rd_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), update: Some(b(Bop::Add, X::F(1), l(7))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P377 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(skip(read), map = "custom::map_wide")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(write), cond = "((*k as i128) < 2)", map = "custom::map_wide")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(map = "custom::map_wide", writer = "custom::wr_wide(deku::writer, *f6, *k)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "msb", skip(read))]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "msb", skip(write), cond = "((*k as i128) < 2)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(bit_order = "msb")]
    pub f12: (u32, u32,),
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P377 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P377 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P377() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P377", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), writer: Some(custom::m_wr_wide), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), skip: Skip::Read, ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), skip: Skip::Write, ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("f12", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P380 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bytes_before = "1", pad_bits_after = "3")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(pad_bytes_before = "1", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_before = "1", skip, default = "(6) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(pad_bytes_before = "1", update = "((self.k as i128) + 7)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", pad_bits_after = "3")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(pad_bits_after = "3", skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P380 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P380 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P380() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P380", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), pad_bits_after: Some(l(3)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), reader: Some(custom::m_rd_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), update: Some(b(Bop::Add, X::F(1), l(7))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), pad_bits_after: Some(l(3)), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Ne, X::F(1), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P383 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(count = "k", skip(read))]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(skip(read), cond = "((*k as i128) != 1)", default = "(((*k as i128) + 4)) as u32", update = "((self.k as i128) + 7)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip(write))]
    pub f6: (u32, u32,),
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bytes = 3, bytes_read = "((*k as i128) * 3)", skip(write))]
    pub f8: Vec<u32>,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(skip(write), writer = "custom::wr_wide(deku::writer, *f10, *k)")]
    pub f10: u32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(count = "k", skip(write), cond = "((*k as i128) < 2)")]
    pub f12: Vec<u8>,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P383 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P383 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P383() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P383", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, X::F(1), l(1))), update: Some(b(Bop::Add, X::F(1), l(7))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(4)), l(0xffffffff)))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, ..FieldD::new("f6", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(3))), skip: Skip::Write, ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, writer: Some(custom::m_wr_wide), ..FieldD::new("f10", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Lt, X::F(1), l(2))), lim: Lim::Count(X::F(1)), skip: Skip::Write, ..FieldD::new("f12", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P386 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(assert = "((*f2 as i128) != 9)", writer = "custom::wr_wide(deku::writer, *f2, *k)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(cond = "((*k as i128) >= 2)", default = "(((*k as i128) + 1)) as u32", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(pad_bytes_before = "1", assert_eq = "(((*k as i128) + 1)) as u32")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P386 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P386 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P386() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P386", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ne, X::F(2), l(9))), writer: Some(custom::m_wr_wide), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ge, X::F(1), l(2))), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff)))), hint: Hint::Range(1, 4), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::F(1), l(1)), l(0xffffffff))), hint: Hint::Range(1, 4), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P389 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "little", magic = b"\xa5\x3c")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(magic = b"\xa5\x3c", map = "custom::map_wide")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "msb", magic = b"\xa5\x3c")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P389 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P389 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P389() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P389", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\xa5\x3c"), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), magic: Some(b"\xa5\x3c"), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P392 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(endian = "big", bit_order = "lsb")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(bit_order = "lsb", bits = 11)]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(bit_order = "lsb", bytes = 3)]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    #[deku(bit_order = "lsb", cond = "((*k as i128) < 2)")]
    pub f8: u32,
    #[deku(bits = "7")]
    pub f9: u8,
    #[deku(bit_order = "lsb")]
    pub f10: i32,
    #[deku(bits = 7)]
    pub f11: u8,
    #[deku(endian = "little", bit_order = "lsb")]
    pub f12: u32,
    #[deku(bits = 7)]
    pub f13: u8,
    pub f14: u8,
}
impl Conv for P392 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv(), self.f10.tv(), self.f11.tv(), self.f12.tv(), self.f13.tv(), self.f14.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P392 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]), f10: Conv::fv(&i[10]), f11: Conv::fv(&i[11]), f12: Conv::fv(&i[12]), f13: Conv::fv(&i[13]), f14: Conv::fv(&i[14]) } }
}
pub fn d_P392() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P392", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(11)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bytes: Some(l(3)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), cond: Some(b(Bop::Lt, X::F(1), l(2))), ..FieldD::new("f8", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f9", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f10", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f11", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f12", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f13", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f14", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct P395 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bit_order = "lsb", assert = "((*f2 as i128) != 9)")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P395 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P395 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P395() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P395", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), assert: Some(b(Bop::Ne, X::F(2), l(9))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P398 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(seek_from_end = "-10")]
    pub f2: i32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(endian = "little", seek_from_end = "-10")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(seek_from_end = "-10", map = "custom::map_wide")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P398 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P398 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P398() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P398", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), seek: Some(SeekSpec::End(l(-10))), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-10))), map: Some((Ty::Int { w: 32, s: false }, custom::m_map_wide)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P401 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(pad_bits_before = "((*k as i128) + 1)", seek_from_start = "2")]
    pub f2: u32,
    #[deku(bits = "7")]
    pub f3: u8,
    #[deku(seek_from_current = "((*k as i128) % 2)", reader = "custom::rd_wide(deku::reader, *k)")]
    pub f4: u32,
    #[deku(bits = "7")]
    pub f5: u8,
    #[deku(skip, default = "(6) as u32", seek_from_current = "((*k as i128) % 2)")]
    pub f6: u32,
    #[deku(bits = "7")]
    pub f7: u8,
    pub f8: u8,
}
impl Conv for P401 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P401 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_P401() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P401", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Add, X::F(1), l(1))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), reader: Some(custom::m_rd_wide), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xffffffff)))), seek: Some(SeekSpec::Current(b(Bop::Rem, X::F(1), l(2)))), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct P404 {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 24, bits_read = "((*k as i128) * 24)", seek_from_start = "2")]
    pub f2: Vec<u32>,
    #[deku(bits = "7")]
    pub f3: u8,
    pub f4: u8,
}
impl Conv for P404 {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.k.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; P404 { p: Conv::fv(&i[0]), k: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_P404() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "P404", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), seek: Some(SeekSpec::Start(l(2))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(7)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
pub enum VarFn {
    #[deku(id = 1, reader = "custom::rd_xor(deku::reader).map(|x| Self::A { x })", writer = "1u8.to_writer(deku::writer, ()).and_then(|_| custom::wr_xor(deku::writer, x))")]
    A { x: u8 },
    #[deku(id = "2", reader = "custom::rd_five(deku::reader).map(|x| Self::B { x })", writer = "2u8.to_writer(deku::writer, ()).and_then(|_| custom::wr_five(deku::writer, *x))")]
    B { x: u8 },
    #[deku(id = 3)]
    C { #[deku(endian = "big")] x: u16 },
    #[deku(id = "0", default, reader = "custom::rd_xor(deku::reader).map(|x| Self::D { x })", writer = "0u8.to_writer(deku::writer, ()).and_then(|_| custom::wr_xor(deku::writer, x))")]
    D { x: u8 },
}
impl Conv for VarFn {
    fn tv(&self) -> Val { match self { VarFn::A { x } => Val::Var(0, vec![x.tv()]), VarFn::B { x } => Val::Var(1, vec![x.tv()]), VarFn::C { x } => Val::Var(2, vec![x.tv()]), VarFn::D { x } => Val::Var(3, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; VarFn::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; VarFn::B { x: Conv::fv(&i[0]) } }, Val::Var(2, i) => { let _ = i; VarFn::C { x: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; VarFn::D { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_VarFn() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "VarFn", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { reader: Some(custom::m_rd_xor), writer: Some(custom::m_wr_xor), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { reader: Some(custom::m_rd_five), writer: Some(custom::m_wr_five), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "C", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(0)), explicit_id: true, pat: None, default: true, fields: vec![FieldD { reader: Some(custom::m_rd_xor), writer: Some(custom::m_wr_xor), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
pub enum VarFnT {
    #[deku(id = "1", reader = "custom::rd_xor(deku::reader).map(|x| Self::A(x))", writer = "1u8.to_writer(deku::writer, ()).and_then(|_| custom::wr_xor(deku::writer, field_0))")]
    A(u8),
    #[deku(id = 2)]
    B(u8),
}
impl Conv for VarFnT {
    fn tv(&self) -> Val { match self { VarFnT::A(field_0) => Val::Var(0, vec![field_0.tv()]), VarFnT::B(field_0) => Val::Var(1, vec![field_0.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; VarFnT::A(Conv::fv(&i[0])) }, Val::Var(1, i) => { let _ = i; VarFnT::B(Conv::fv(&i[0])) }, _ => panic!("shape") } }
}
pub fn d_VarFnT() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "VarFnT", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { reader: Some(custom::m_rd_xor), writer: Some(custom::m_wr_xor), ..FieldD::new("field_0", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\x5a\x01", endian = "little", id_type = "u16")]
pub enum VarFnM {
    #[deku(id = "258", reader = "custom::rd_five(deku::reader).map(|x| Self::A { x })", writer = "258u16.to_writer(deku::writer, deku::ctx::Endian::Little).and_then(|_| custom::wr_five(deku::writer, *x))")]
    A { x: u8 },
    #[deku(id = 513)]
    B { x: u8, y: u16 },
    #[deku(id = "7", reader = "custom::rd_xor(deku::reader).map(|x| Self::C { x })", writer = "7u16.to_writer(deku::writer, deku::ctx::Endian::Little).and_then(|_| custom::wr_xor(deku::writer, x))")]
    C { x: u8 },
}
impl Conv for VarFnM {
    fn tv(&self) -> Val { match self { VarFnM::A { x } => Val::Var(0, vec![x.tv()]), VarFnM::B { x, y } => Val::Var(1, vec![x.tv(), y.tv()]), VarFnM::C { x } => Val::Var(2, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; VarFnM::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; VarFnM::B { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }, Val::Var(2, i) => { let _ = i; VarFnM::C { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_VarFnM() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "VarFnM", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(258)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { reader: Some(custom::m_rd_five), writer: Some(custom::m_wr_five), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(513)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "C", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { reader: Some(custom::m_rd_xor), writer: Some(custom::m_wr_xor), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: Some(b"\x5a\x01"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "msb", id_type = "u8", bits = 3)]
pub enum VarFnBits {
    #[deku(id = 1, reader = "custom::rd_five(deku::reader).map(|x| Self::A { x })", writer = "1u8.to_writer(deku::writer, (deku::ctx::Endian::Big, deku::ctx::BitSize(3), deku::ctx::Order::Msb0)).and_then(|_| custom::wr_five(deku::writer, *x))")]
    A { x: u8 },
    #[deku(id = "2")]
    B { #[deku(bits = "5")] x: u8 },
    #[deku(id = 5, reader = "custom::rd_five(deku::reader).map(|x| Self::C { x })", writer = "5u8.to_writer(deku::writer, (deku::ctx::Endian::Big, deku::ctx::BitSize(3), deku::ctx::Order::Msb0)).and_then(|_| custom::wr_five(deku::writer, *x))")]
    C { x: u8 },
}
impl Conv for VarFnBits {
    fn tv(&self) -> Val { match self { VarFnBits::A { x } => Val::Var(0, vec![x.tv()]), VarFnBits::B { x } => Val::Var(1, vec![x.tv()]), VarFnBits::C { x } => Val::Var(2, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; VarFnBits::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; VarFnBits::B { x: Conv::fv(&i[0]) } }, Val::Var(2, i) => { let _ = i; VarFnBits::C { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_VarFnBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "VarFnBits", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(3), bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { reader: Some(custom::m_rd_five), writer: Some(custom::m_wr_five), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "C", id: Some(Val::N(5)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { reader: Some(custom::m_rd_five), writer: Some(custom::m_wr_five), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(ctx = "my_id: u8", id = "my_id")]
pub enum VarFnCtx {
    #[deku(id = "1", reader = "custom::rd_xor(deku::reader).map(|x| Self::A { x })", writer = "Ok::<(), DekuError>(()).and_then(|_| custom::wr_xor(deku::writer, x))")]
    A { x: u8 },
    #[deku(id = 2)]
    B { #[deku(endian = "little")] x: u16 },
    #[deku(id = "3", reader = "custom::rd_five(deku::reader).map(|x| Self::C { x })", writer = "Ok::<(), DekuError>(()).and_then(|_| custom::wr_five(deku::writer, *x))")]
    C { x: u8 },
}
impl Conv for VarFnCtx {
    fn tv(&self) -> Val { match self { VarFnCtx::A { x } => Val::Var(0, vec![x.tv()]), VarFnCtx::B { x } => Val::Var(1, vec![x.tv()]), VarFnCtx::C { x } => Val::Var(2, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; VarFnCtx::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; VarFnCtx::B { x: Conv::fv(&i[0]) } }, Val::Var(2, i) => { let _ = i; VarFnCtx::C { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_VarFnCtx() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "VarFnCtx", kind: Kind::Enum { id: IdSrc::Ctx(X::C(0)), variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { reader: Some(custom::m_rd_xor), writer: Some(custom::m_wr_xor), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "C", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { reader: Some(custom::m_rd_five), writer: Some(custom::m_wr_five), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct VarFnUse {
    #[deku(bits = 4)]
    pub p: u8,
    #[deku(bits = 4)]
    pub n: u8,
    #[deku(count = "n")]
    pub v: Vec<VarFn>,
    pub b: VarFnBits,
    pub z: u8,
}
impl Conv for VarFnUse {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.n.tv(), self.v.tv(), self.b.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; VarFnUse { p: Conv::fv(&i[0]), n: Conv::fv(&i[1]), v: Conv::fv(&i[2]), b: Conv::fv(&i[3]), z: Conv::fv(&i[4]) } }
}
pub fn d_VarFnUse() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "VarFnUse", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Named(d_VarFn)))) }, FieldD { ..FieldD::new("b", Ty::Named(d_VarFnBits)) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct VarFnUseC {
    pub k: u8,
    #[deku(ctx = "((*k as i128)) as u8")]
    pub e: VarFnCtx,
    #[deku(cond = "((*k as i128) >= 2)")]
    pub o: Option<VarFn>,
    pub z: u8,
}
impl Conv for VarFnUseC {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.e.tv(), self.o.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; VarFnUseC { k: Conv::fv(&i[0]), e: Conv::fv(&i[1]), o: Conv::fv(&i[2]), z: Conv::fv(&i[3]) } }
}
pub fn d_VarFnUseC() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "VarFnUseC", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(1, 4), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { ctx: vec![b(Bop::And, X::F(0), l(0xff))], ..FieldD::new("e", Ty::Named(d_VarFnCtx)) }, FieldD { cond: Some(b(Bop::Ge, X::F(0), l(2))), ..FieldD::new("o", Ty::Opt(Box::new(Ty::Named(d_VarFn)))) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

pub fn entries() -> Vec<Entry> {
    let mut v = vec![];
    v.push(Entry { name: "P2", tags: &["bits", "cond", "endian", "skip", "ty_arr", "ty_int"], decl: d_P2, ops: ops::<P2>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P5", tags: &["bits", "cond", "default", "endian", "pad", "skip", "ty_int"], decl: d_P5, ops: ops::<P5>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P8", tags: &["bits", "cond", "count", "default", "endian", "map", "ty_int", "ty_list", "ty_ptr"], decl: d_P8, ops: ops::<P8>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P11", tags: &["bits", "count", "temp", "temp_value", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P11, ops: ops::<P11>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P14", tags: &["bits", "count", "order", "pad", "skip", "ty_int", "ty_list", "ty_ptr"], decl: d_P14, ops: ops::<P14>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P17", tags: &["bits", "bytes", "cond", "default", "pad", "skip", "ty_int"], decl: d_P17, ops: ops::<P17>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P20", tags: &["bits", "cond", "default", "order", "pad", "reader", "ty_int"], decl: d_P20, ops: ops::<P20>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P23", tags: &["bits", "cond", "pad", "reader", "ty_int", "ty_tup"], decl: d_P23, ops: ops::<P23>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P26", tags: &["bits", "cond", "default", "pad", "skip", "ty_int"], decl: d_P26, ops: ops::<P26>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P29", tags: &["bits", "cond", "default", "endian", "skip", "temp", "temp_value", "ty_int"], decl: d_P29, ops: ops::<P29>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P32", tags: &["bits", "cond", "default", "map", "pad", "skip", "ty_int"], decl: d_P32, ops: ops::<P32>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P35", tags: &["bits", "cond", "default", "order", "skip", "temp", "temp_value", "ty_int", "ty_list", "ty_tup", "until"], decl: d_P35, ops: ops::<P35>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P38", tags: &["bits", "cond", "default", "pad", "reader", "skip", "ty_int", "ty_opt"], decl: d_P38, ops: ops::<P38>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P41", tags: &["bits", "count", "default", "pad", "reader", "skip", "ty_int", "ty_list", "writer"], decl: d_P41, ops: ops::<P41>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P44", tags: &["bits", "cond", "count", "default", "pad", "reader", "skip", "ty_int", "ty_list", "writer"], decl: d_P44, ops: ops::<P44>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P47", tags: &["bits", "cond", "default", "pad", "reader", "skip", "ty_int", "writer"], decl: d_P47, ops: ops::<P47>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P50", tags: &["bits", "cond", "default", "reader", "skip", "temp", "temp_value", "ty_int"], decl: d_P50, ops: ops::<P50>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P53", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "default", "skip", "ty_int", "ty_list", "update", "writer"], decl: d_P53, ops: ops::<P53>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P56", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "default", "skip", "ty_int", "ty_list", "ty_tup", "until", "writer"], decl: d_P56, ops: ops::<P56>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P59", tags: &["bits", "cond", "count", "skip", "temp", "temp_value", "ty_int", "ty_list", "update", "writer"], decl: d_P59, ops: ops::<P59>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P62", tags: &["assert", "bits", "endian", "magic", "size", "ty_int"], decl: d_P62, ops: ops::<P62>(), deku_id: None, size_bits: Some((<P62 as DekuSize>::SIZE_BITS, 146)) });
    v.push(Entry { name: "P65", tags: &["assert", "bits", "cond", "default", "reader", "skip", "ty_int"], decl: d_P65, ops: ops::<P65>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P68", tags: &["assert_eq", "bits", "bytes", "endian", "size", "ty_int"], decl: d_P68, ops: ops::<P68>(), deku_id: None, size_bits: Some((<P68 as DekuSize>::SIZE_BITS, 101)) });
    v.push(Entry { name: "P71", tags: &["assert_eq", "bits", "pad", "ty_int"], decl: d_P71, ops: ops::<P71>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P74", tags: &["assert_eq", "bits", "cond", "skip", "ty_int", "update"], decl: d_P74, ops: ops::<P74>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P77", tags: &["bits", "cond", "default", "magic", "ty_int"], decl: d_P77, ops: ops::<P77>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P80", tags: &["bits", "magic", "pad", "ty_int"], decl: d_P80, ops: ops::<P80>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P83", tags: &["bits", "cond", "magic", "skip", "temp", "temp_value", "ty_int", "ty_tup"], decl: d_P83, ops: ops::<P83>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P86", tags: &["bits", "magic", "ty_int", "writer"], decl: d_P86, ops: ops::<P86>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P89", tags: &["bits", "cond", "default", "order", "pad", "skip", "ty_int"], decl: d_P89, ops: ops::<P89>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P92", tags: &["assert", "assert_eq", "bits", "magic", "order", "size", "ty_int"], decl: d_P92, ops: ops::<P92>(), deku_id: None, size_bits: Some((<P92 as DekuSize>::SIZE_BITS, 146)) });
    v.push(Entry { name: "P95", tags: &["bits", "seek", "ty_int"], decl: d_P95, ops: ops::<P95>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P98", tags: &["bits", "bytes", "seek", "ty_int"], decl: d_P98, ops: ops::<P98>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P101", tags: &["bits", "seek", "ty_int"], decl: d_P101, ops: ops::<P101>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P104", tags: &["bits", "order", "seek", "ty_int"], decl: d_P104, ops: ops::<P104>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P107", tags: &["bits", "pad", "seek", "ty_int"], decl: d_P107, ops: ops::<P107>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P110", tags: &["bits", "pad", "seek", "ty_int"], decl: d_P110, ops: ops::<P110>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P113", tags: &["bits", "cond", "default", "seek", "skip", "ty_int"], decl: d_P113, ops: ops::<P113>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P116", tags: &["bits", "cond", "default", "seek", "skip", "ty_int", "writer"], decl: d_P116, ops: ops::<P116>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P119", tags: &["bits", "bits_read", "count", "seek", "ty_int", "ty_list", "update"], decl: d_P119, ops: ops::<P119>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P122", tags: &["bits", "cond", "default", "seek", "skip", "ty_int"], decl: d_P122, ops: ops::<P122>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P125", tags: &["bits", "count", "seek", "ty_int", "ty_list", "writer"], decl: d_P125, ops: ops::<P125>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P128", tags: &["bits", "order", "seek", "ty_int"], decl: d_P128, ops: ops::<P128>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P131", tags: &["bits", "cond", "endian", "order", "skip", "ty_arr", "ty_int"], decl: d_P131, ops: ops::<P131>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P134", tags: &["bits", "cond", "default", "endian", "order", "pad", "skip", "ty_int"], decl: d_P134, ops: ops::<P134>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P137", tags: &["bits", "cond", "default", "endian", "map", "order", "ty_int"], decl: d_P137, ops: ops::<P137>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P140", tags: &["bits", "count", "endian", "order", "temp", "temp_value", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_P140, ops: ops::<P140>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P143", tags: &["bits", "count", "endian", "order", "pad", "skip", "ty_int", "ty_list", "ty_ptr"], decl: d_P143, ops: ops::<P143>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P146", tags: &["bits", "bytes", "cond", "default", "endian", "order", "pad", "skip", "ty_int", "ty_opt"], decl: d_P146, ops: ops::<P146>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P149", tags: &["bits", "cond", "default", "endian", "map", "order", "pad", "ty_int"], decl: d_P149, ops: ops::<P149>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P152", tags: &["bits", "cond", "endian", "map", "order", "pad", "ty_int"], decl: d_P152, ops: ops::<P152>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P155", tags: &["bits", "cond", "default", "endian", "order", "pad", "skip", "ty_int"], decl: d_P155, ops: ops::<P155>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P158", tags: &["bits", "cond", "default", "endian", "order", "skip", "ty_int"], decl: d_P158, ops: ops::<P158>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P161", tags: &["bits", "cond", "default", "endian", "order", "pad", "skip", "ty_int"], decl: d_P161, ops: ops::<P161>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P164", tags: &["bits", "cond", "default", "endian", "map", "order", "pad", "skip", "ty_int"], decl: d_P164, ops: ops::<P164>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P167", tags: &["bits", "cond", "default", "endian", "order", "pad", "reader", "skip", "ty_int"], decl: d_P167, ops: ops::<P167>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P170", tags: &["bits", "cond", "default", "endian", "order", "pad", "reader", "skip", "ty_int"], decl: d_P170, ops: ops::<P170>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P173", tags: &["bits", "cond", "default", "endian", "order", "pad", "reader", "skip", "ty_int"], decl: d_P173, ops: ops::<P173>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P176", tags: &["bits", "cond", "default", "endian", "order", "pad", "skip", "ty_int"], decl: d_P176, ops: ops::<P176>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P179", tags: &["bits", "cond", "default", "endian", "order", "reader", "skip", "temp", "temp_value", "ty_int", "update", "writer"], decl: d_P179, ops: ops::<P179>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P182", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "default", "endian", "order", "skip", "ty_int", "ty_list", "ty_tup", "until", "writer"], decl: d_P182, ops: ops::<P182>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P185", tags: &["bits", "cond", "count", "default", "endian", "order", "skip", "ty_int", "ty_list", "ty_tup", "until", "update", "writer"], decl: d_P185, ops: ops::<P185>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P188", tags: &["bits", "endian", "order", "temp", "temp_value", "ty_int", "update", "writer"], decl: d_P188, ops: ops::<P188>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P191", tags: &["assert", "bits", "endian", "map", "order", "ty_int"], decl: d_P191, ops: ops::<P191>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P194", tags: &["assert", "bits", "cond", "default", "endian", "order", "skip", "ty_int"], decl: d_P194, ops: ops::<P194>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P197", tags: &["assert_eq", "bits", "bytes", "cond", "default", "endian", "order", "ty_int"], decl: d_P197, ops: ops::<P197>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P200", tags: &["assert_eq", "bits", "default", "endian", "order", "pad", "reader", "skip", "ty_int"], decl: d_P200, ops: ops::<P200>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P203", tags: &["assert_eq", "bits", "endian", "order", "ty_int", "writer"], decl: d_P203, ops: ops::<P203>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P206", tags: &["bits", "bytes", "cond", "count", "default", "endian", "magic", "order", "ty_int", "ty_list", "ty_ptr"], decl: d_P206, ops: ops::<P206>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P209", tags: &["bits", "endian", "magic", "order", "pad", "ty_int"], decl: d_P209, ops: ops::<P209>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P212", tags: &["bits", "cond", "endian", "magic", "order", "skip", "temp", "temp_value", "ty_int"], decl: d_P212, ops: ops::<P212>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P215", tags: &["bits", "count", "endian", "magic", "order", "ty_int", "ty_list", "writer"], decl: d_P215, ops: ops::<P215>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P218", tags: &["bits", "cond", "default", "endian", "order", "pad", "skip", "ty_int"], decl: d_P218, ops: ops::<P218>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P221", tags: &["bits", "endian", "order", "ty_int", "writer"], decl: d_P221, ops: ops::<P221>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P224", tags: &["bits", "endian", "order", "seek", "ty_arr", "ty_int"], decl: d_P224, ops: ops::<P224>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P227", tags: &["bits", "endian", "order", "seek", "ty_int", "ty_ptr"], decl: d_P227, ops: ops::<P227>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P230", tags: &["bits", "cond", "default", "endian", "order", "seek", "ty_int"], decl: d_P230, ops: ops::<P230>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P233", tags: &["bits", "endian", "order", "seek", "ty_int"], decl: d_P233, ops: ops::<P233>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P236", tags: &["bits", "cond", "endian", "order", "seek", "ty_int", "ty_opt"], decl: d_P236, ops: ops::<P236>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P239", tags: &["bits", "endian", "order", "pad", "seek", "ty_int"], decl: d_P239, ops: ops::<P239>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P242", tags: &["bits", "cond", "default", "endian", "order", "seek", "skip", "ty_int"], decl: d_P242, ops: ops::<P242>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P245", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "endian", "order", "seek", "ty_int", "ty_list"], decl: d_P245, ops: ops::<P245>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P248", tags: &["bits", "cond", "endian", "order", "seek", "skip", "ty_int", "ty_list", "ty_tup", "until"], decl: d_P248, ops: ops::<P248>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P251", tags: &["bits", "cond", "default", "endian", "order", "seek", "skip", "ty_int"], decl: d_P251, ops: ops::<P251>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P254", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "endian", "order", "seek", "ty_int", "ty_list"], decl: d_P254, ops: ops::<P254>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P257", tags: &["bits", "endian", "magic", "order", "seek", "ty_int"], decl: d_P257, ops: ops::<P257>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P260", tags: &["bits", "cond", "default", "endian", "map", "order", "skip", "ty_int"], decl: d_P260, ops: ops::<P260>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P263", tags: &["bits", "bytes", "count", "endian", "order", "pad", "temp", "temp_value", "ty_int", "ty_list", "ty_ptr"], decl: d_P263, ops: ops::<P263>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P266", tags: &["bits", "bits_read", "cond", "count", "endian", "map", "order", "ty_int", "ty_list", "until"], decl: d_P266, ops: ops::<P266>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P269", tags: &["bits", "bytes", "bytes_read", "cond", "count", "default", "endian", "order", "pad", "skip", "ty_int", "ty_list", "ty_opt"], decl: d_P269, ops: ops::<P269>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P272", tags: &["bits", "bits_read", "cond", "default", "endian", "order", "pad", "skip", "ty_int", "ty_list", "ty_tup", "until"], decl: d_P272, ops: ops::<P272>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P275", tags: &["bits", "bits_read", "cond", "count", "endian", "order", "skip", "ty_int", "ty_list", "until", "update"], decl: d_P275, ops: ops::<P275>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P278", tags: &["assert", "bits", "endian", "map", "order", "ty_int"], decl: d_P278, ops: ops::<P278>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P281", tags: &["assert_eq", "bits", "bytes", "cond", "endian", "magic", "order", "ty_int", "ty_opt"], decl: d_P281, ops: ops::<P281>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P284", tags: &["bits", "bytes", "cond", "endian", "order", "ty_int"], decl: d_P284, ops: ops::<P284>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P287", tags: &["assert", "bits", "endian", "order", "size", "ty_int"], decl: d_P287, ops: ops::<P287>(), deku_id: None, size_bits: Some((<P287 as DekuSize>::SIZE_BITS, 52)) });
    v.push(Entry { name: "P290", tags: &["bits", "cond", "endian", "order", "pad", "seek", "ty_int", "ty_opt"], decl: d_P290, ops: ops::<P290>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P293", tags: &["bits", "default", "endian", "order", "seek", "skip", "ty_int", "update"], decl: d_P293, ops: ops::<P293>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P296", tags: &["bits", "endian", "magic", "order", "seek", "ty_int"], decl: d_P296, ops: ops::<P296>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P299", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "endian", "order", "pad", "ty_int", "ty_list", "ty_opt"], decl: d_P299, ops: ops::<P299>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P302", tags: &["bits", "bytes", "bytes_read", "cond", "count", "default", "endian", "order", "skip", "temp", "temp_value", "ty_int", "ty_list", "ty_tup"], decl: d_P302, ops: ops::<P302>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P305", tags: &["bits", "bits_read", "bytes", "bytes_read", "default", "endian", "map", "order", "pad", "skip", "ty_int", "ty_list", "update"], decl: d_P305, ops: ops::<P305>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P308", tags: &["bits", "cond", "count", "endian", "order", "pad", "skip", "temp", "temp_value", "ty_int", "ty_list", "ty_tup"], decl: d_P308, ops: ops::<P308>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P311", tags: &["bits", "cond", "count", "default", "endian", "order", "reader", "skip", "temp", "temp_value", "ty_int", "ty_list", "update"], decl: d_P311, ops: ops::<P311>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P314", tags: &["assert", "bits", "bytes", "endian", "order", "pad", "ty_int"], decl: d_P314, ops: ops::<P314>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P317", tags: &["assert_eq", "bits", "endian", "order", "size", "ty_int"], decl: d_P317, ops: ops::<P317>(), deku_id: None, size_bits: Some((<P317 as DekuSize>::SIZE_BITS, 130)) });
    v.push(Entry { name: "P320", tags: &["bits", "bits_read", "cond", "default", "endian", "magic", "order", "skip", "ty_int", "ty_list", "until"], decl: d_P320, ops: ops::<P320>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P323", tags: &["bits", "endian", "order", "seek", "ty_arr", "ty_int"], decl: d_P323, ops: ops::<P323>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P326", tags: &["bits", "endian", "map", "order", "pad", "seek", "ty_int"], decl: d_P326, ops: ops::<P326>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P329", tags: &["bits", "bits_read", "cond", "default", "endian", "order", "seek", "skip", "ty_int", "ty_list", "until"], decl: d_P329, ops: ops::<P329>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P332", tags: &["bits", "endian", "magic", "order", "seek", "ty_int"], decl: d_P332, ops: ops::<P332>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P335", tags: &["bits", "cond", "default", "endian", "order", "pad", "skip", "ty_int", "ty_list", "until"], decl: d_P335, ops: ops::<P335>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P338", tags: &["bits", "bytes", "cond", "count", "default", "endian", "order", "skip", "ty_int", "ty_list", "ty_ptr"], decl: d_P338, ops: ops::<P338>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P341", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "default", "endian", "order", "pad", "skip", "ty_int", "ty_list", "until"], decl: d_P341, ops: ops::<P341>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P344", tags: &["bits", "cond", "count", "default", "order", "pad", "skip", "temp", "temp_value", "ty_int", "ty_list", "update"], decl: d_P344, ops: ops::<P344>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P347", tags: &["bits", "bits_read", "cond", "count", "order", "skip", "ty_int", "ty_list", "ty_tup", "until", "writer"], decl: d_P347, ops: ops::<P347>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P350", tags: &["assert", "assert_eq", "bits", "cond", "default", "order", "pad", "skip", "ty_int"], decl: d_P350, ops: ops::<P350>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P353", tags: &["bits", "cond", "magic", "order", "skip", "ty_int", "ty_tup"], decl: d_P353, ops: ops::<P353>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P356", tags: &["bits", "bits_read", "cond", "default", "order", "pad", "skip", "ty_int", "ty_list", "until"], decl: d_P356, ops: ops::<P356>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P359", tags: &["bits", "endian", "map", "order", "seek", "ty_int"], decl: d_P359, ops: ops::<P359>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P362", tags: &["bits", "count", "order", "seek", "skip", "ty_int", "ty_list"], decl: d_P362, ops: ops::<P362>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P365", tags: &["assert", "bits", "order", "seek", "ty_int"], decl: d_P365, ops: ops::<P365>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P368", tags: &["bits", "cond", "endian", "order", "skip", "ty_arr", "ty_int"], decl: d_P368, ops: ops::<P368>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P371", tags: &["bits", "cond", "endian", "order", "skip", "ty_int", "ty_tup", "writer"], decl: d_P371, ops: ops::<P371>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P374", tags: &["bits", "bytes", "cond", "default", "endian", "pad", "reader", "skip", "ty_int", "ty_list", "until", "update"], decl: d_P374, ops: ops::<P374>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P377", tags: &["bits", "cond", "endian", "map", "order", "skip", "ty_int", "ty_tup", "writer"], decl: d_P377, ops: ops::<P377>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P380", tags: &["bits", "cond", "default", "endian", "pad", "reader", "skip", "ty_int", "update"], decl: d_P380, ops: ops::<P380>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P383", tags: &["bits", "bytes", "bytes_read", "cond", "count", "default", "endian", "skip", "ty_int", "ty_list", "ty_tup", "update", "writer"], decl: d_P383, ops: ops::<P383>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P386", tags: &["assert", "assert_eq", "bits", "cond", "default", "endian", "pad", "ty_int", "writer"], decl: d_P386, ops: ops::<P386>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P389", tags: &["bits", "endian", "magic", "map", "order", "ty_int"], decl: d_P389, ops: ops::<P389>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P392", tags: &["bits", "bytes", "cond", "endian", "order", "ty_int"], decl: d_P392, ops: ops::<P392>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P395", tags: &["assert", "bits", "endian", "order", "size", "ty_int"], decl: d_P395, ops: ops::<P395>(), deku_id: None, size_bits: Some((<P395 as DekuSize>::SIZE_BITS, 52)) });
    v.push(Entry { name: "P398", tags: &["bits", "endian", "map", "seek", "ty_int"], decl: d_P398, ops: ops::<P398>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P401", tags: &["bits", "default", "endian", "pad", "reader", "seek", "skip", "ty_int"], decl: d_P401, ops: ops::<P401>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "P404", tags: &["bits", "bits_read", "endian", "seek", "ty_int", "ty_list"], decl: d_P404, ops: ops::<P404>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "VarFn", tags: &["default_variant", "endian", "enum", "reader", "ty_int", "writer"], decl: d_VarFn, ops: ops::<VarFn>(), deku_id: Some(deku_id::<VarFn, u8>), size_bits: None });
    v.push(Entry { name: "VarFnT", tags: &["enum", "reader", "ty_int", "writer"], decl: d_VarFnT, ops: ops::<VarFnT>(), deku_id: Some(deku_id::<VarFnT, u8>), size_bits: None });
    v.push(Entry { name: "VarFnM", tags: &["endian", "enum", "magic", "reader", "ty_int", "writer"], decl: d_VarFnM, ops: ops::<VarFnM>(), deku_id: Some(deku_id::<VarFnM, u16>), size_bits: None });
    v.push(Entry { name: "VarFnBits", tags: &["bits", "endian", "enum", "order", "reader", "ty_int", "writer"], decl: d_VarFnBits, ops: ops::<VarFnBits>(), deku_id: Some(deku_id::<VarFnBits, u8>), size_bits: None });
    v.push(Entry { name: "VarFnUse", tags: &["bits", "count", "default_variant", "endian", "order", "reader", "ty_int", "ty_list", "ty_named", "writer"], decl: d_VarFnUse, ops: ops::<VarFnUse>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "VarFnUseC", tags: &["cond", "ctx", "default_variant", "endian", "id_ctx", "reader", "ty_int", "ty_named", "ty_opt", "writer"], decl: d_VarFnUseC, ops: ops::<VarFnUseC>(), deku_id: None, size_bits: None });
    v
}
