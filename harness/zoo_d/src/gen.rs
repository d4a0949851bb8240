// @generated by gen_zoo.py
#![allow(clippy::all, unused_parens, unused_variables, dead_code, non_camel_case_types, non_snake_case, unused_imports, unused_mut)]
use deku::prelude::*;
use std::sync::OnceLock;
use vcore::custom;
use vcore::model::*;
use vcore::ops::{deku_id, ops, Entry};
use vcore::val::{Conv, Val};

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct DS2 {
    #[deku(skip, default = "(124) as u8")]
    pub f0: u8,
    #[deku(bits = "7")]
    pub f1: u8,
}
impl Conv for DS2 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS2 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_DS2() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS2", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(124), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct DS1 {
    pub f0: DS2,
    #[deku(bits = "1")]
    pub f1: [[bool; 2]; 2],
    #[deku(skip, default = "(101) as u8")]
    pub f2: u8,
    #[deku(bits = 119, read_all)]
    pub f3: Vec<(i128, u8,)>,
}
impl Conv for DS1 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS1 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_DS1() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS1", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Named(d_DS2)) }, FieldD { bits: Some(l(1)), ..FieldD::new("f1", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Bool), 2)), 2)) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(101), l(0xff)))), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(119)), lim: Lim::All, ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 128, s: true }, Ty::Int { w: 8, s: false }])))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct DS3 {
    #[deku(until = "|v: &u16| ((*v as i128) == 1)")]
    pub f0: Vec<u16>,
    pub f1: i32,
    #[deku(skip, default = "(130) as u8")]
    pub f2: u8,
    #[deku(bits = 5)]
    pub f3: u8,
    #[deku(bytes_read = "((*f3 as i128) * 16)")]
    pub f4: std::sync::Arc<[[usize; 2]]>,
    pub f5: u32,
}
impl Conv for DS3 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS3 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_DS3() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS3", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 32, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(130), l(0xff)))), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 3), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(3), l(16))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)))) }, FieldD { ..FieldD::new("f5", Ty::Int { w: 32, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct DS5 {
    #[deku(magic = b"\xca\xea\x16")]
    pub f0: u128,
    #[deku(until = "|v: &i8| ((*v as i128) == 1)")]
    pub f1: Vec<i8>,
    pub f2: u16,
    #[deku(bits = "4", count = "f2")]
    pub f3: Vec<(bool, u8,)>,
}
impl Conv for DS5 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS5 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_DS5() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS5", kind: Kind::Struct { fields: vec![FieldD { magic: Some(b"\xca\xea\x16"), ..FieldD::new("f0", Ty::Int { w: 128, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("f2", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(4)), lim: Lim::Count(X::F(2)), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Bool, Ty::Int { w: 8, s: false }])))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", id_type = "u8", bits = 3)]
pub enum DE4 {
    #[deku(id = 3)]
    V0 { #[deku(bits = 8)] g0: u16, #[deku(count = "g0")] g1: Vec<DS5>, #[deku(update = "(g3.len() as i128)")] g2: u8, #[deku(count = "((*g2 as i128) + 0)")] g3: Box<[i8]>, #[deku(skip, default = "(112) as u8")] g4: u8 },
    #[deku(id = "1")]
    V1,
    #[deku(id = 0)]
    V2 { g0: u8, #[deku(bits = 5, bits_read = "((*g0 as i128) * 5)")] g1: Vec<[u8; 2]>, #[deku(bits = 2)] g2: i128, #[deku(update = "(g4.len() as i128)")] g3: u8, #[deku(count = "g3")] g4: Vec<u32>, #[deku(skip, default = "(130) as u8")] g5: u8 },
}
impl Conv for DE4 {
    fn tv(&self) -> Val { match self { DE4::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), DE4::V1 => Val::Var(1, vec![]), DE4::V2 { g0, g1, g2, g3, g4, g5 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE4::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(1, i) => { let _ = i; DE4::V1 }, Val::Var(2, i) => { let _ = i; DE4::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, _ => panic!("shape") } }
}
pub fn d_DE4() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE4", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(3), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Named(d_DS5)))) }, FieldD { update: Some(X::Len(3)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(2), l(0))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(112), l(0xff)))), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V2", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(5))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)))) }, FieldD { bits: Some(l(2)), ..FieldD::new("g2", Ty::Int { w: 128, s: true }) }, FieldD { update: Some(X::Len(4)), hint: Hint::Range(0, 3), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(130), l(0xff)))), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct DS6 {
    #[deku(bits = 8, update = "(self.f1.len() as i128)")]
    pub f0: u32,
    #[deku(count = "f0", pad_bits_after = "1")]
    pub f1: Vec<(u8, u8,)>,
    #[deku(until = "|v: &i8| ((*v as i128) == 0)")]
    pub f2: Vec<i8>,
}
impl Conv for DS6 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS6 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_DS6() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS6", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(8)), update: Some(X::Len(1)), hint: Hint::Range(0, 3), ..FieldD::new("f0", Ty::Int { w: 32, s: false }) }, FieldD { pad_bits_after: Some(l(1)), lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS8 {
    pub f0: i32,
    #[deku(skip, default = "(67) as u8")]
    pub f1: u8,
    #[deku(bits = 8)]
    pub f2: u8,
    #[deku(count = "f2")]
    pub f3: Vec<u8>,
    #[deku(bits = "28")]
    pub f4: usize,
}
impl Conv for DS8 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS8 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_DS8() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS8", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 32, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(67), l(0xff)))), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(28)), ..FieldD::new("f4", Ty::Int { w: 64, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\xc7\x7b\xf0", endian = "big", bit_order = "lsb")]
pub struct DS7 {
    pub f0: f64,
    #[deku(bits = 8)]
    pub f1: u8,
    #[deku(count = "f1")]
    pub f2: Box<[DS8]>,
    #[deku(pad_bits_before = "3", skip, default = "(134) as u8")]
    pub f3: u8,
    #[deku(bits = "4")]
    pub f4: u32,
    #[deku(bits = 2, count = "((*f4 as i128) + 0)", pad_bytes_after = "2")]
    pub f5: Box<[i8]>,
}
impl Conv for DS7 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS7 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_DS7() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS7", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Float { w: 64 }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Named(d_DS8)))) }, FieldD { pad_bits_before: Some(l(3)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(134), l(0xff)))), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(2)), pad_bytes_after: Some(l(2)), lim: Lim::Count(b(Bop::Add, X::F(4), l(0))), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: Some(b"\xc7\x7b\xf0"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct DS11 {
    #[deku(bits = 8)]
    pub f0: u32,
    #[deku(bits = 2, count = "f0")]
    pub f1: Vec<[u128; 2]>,
    #[deku(skip, default = "(104) as u8")]
    pub f2: u8,
}
impl Conv for DS11 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS11 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_DS11() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS11", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("f0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(2)), lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 128, s: false }), 2)))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(104), l(0xff)))), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct DS10 {
    #[deku(update = "(self.f1.len() as i128)")]
    pub f0: u8,
    #[deku(bits = 3, count = "f0")]
    pub f1: std::sync::Arc<[u8]>,
    pub f2: std::num::NonZeroU8,
    pub f3: DS11,
    #[deku(bytes = 5)]
    pub f4: i64,
}
impl Conv for DS10 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS10 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_DS10() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS10", kind: Kind::Struct { fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(3)), lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("f2", Ty::NonZero { w: 8, s: false }) }, FieldD { ..FieldD::new("f3", Ty::Named(d_DS11)) }, FieldD { bytes: Some(l(5)), ..FieldD::new("f4", Ty::Int { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u8", bits = 6)]
pub enum DE12 {
    #[deku(id = "13")]
    V0 { g0: [i64; 3] },
    #[deku(id = 25)]
    V1 { #[deku(bits = 5)] g0: u8, #[deku(bits = 6, count = "g0")] g1: std::sync::Arc<[u8]>, g2: u8, #[deku(bits = 15, count = "((*g2 as i128) + 1)")] g3: Vec<i16>, #[deku(bytes = "4")] g4: usize, #[deku(cond = "(((*g4 as i128) & 3) >= 2)")] g5: Option<u32>, #[deku(bytes = "1")] g6: u16, g7: u16, #[deku(count = "g7")] g8: Vec<bool> },
    #[deku(id = "10")]
    V2 { #[deku(skip, default = "(20) as u8")] g0: u8, #[deku(bits = 5)] g1: u64, g2: u8, #[deku(count = "g2")] g3: Box<[bool]>, #[deku(bits = "16")] g4: (u16, u16,), #[deku(bits = "7")] g5: i8, #[deku(skip, default = "(72) as u8")] g6: u8 },
    #[deku(id = 5)]
    V3 { g0: u16, #[deku(bytes = "1", bytes_read = "((*g0 as i128) * 1)")] g1: Box<[u32]>, g2: f64, #[deku(skip, default = "(134) as u8")] g3: u8, #[deku(pad_bits_before = "2", skip, default = "(195) as u8")] g4: u8, #[deku(update = "(g6.len() as i128)")] g5: u8, #[deku(count = "g5")] g6: Box<[[usize; 2]]>, g7: u8, #[deku(bits = 3, bits_read = "((*g7 as i128) * 3)")] g8: Vec<[i16; 2]> },
    #[deku(id_pat = "23..=24")]
    P { g0: u8, #[deku(bits = 29)] g1: u32, #[deku(bits = 8)] g2: u8, #[deku(bytes_read = "((*g2 as i128) * 1)")] g3: std::sync::Arc<[u8]> },
}
impl Conv for DE12 {
    fn tv(&self) -> Val { match self { DE12::V0 { g0 } => Val::Var(0, vec![g0.tv()]), DE12::V1 { g0, g1, g2, g3, g4, g5, g6, g7, g8 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv()]), DE12::V2 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), DE12::V3 { g0, g1, g2, g3, g4, g5, g6, g7, g8 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv()]), DE12::P { g0, g1, g2, g3 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE12::V0 { g0: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; DE12::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]) } }, Val::Var(2, i) => { let _ = i; DE12::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(3, i) => { let _ = i; DE12::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]) } }, Val::Var(4, i) => { let _ = i; DE12::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_DE12() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE12", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(6), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(13)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 3)) }] }, VariantD { name: "V1", id: Some(Val::N(25)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(6)), lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(15)), lim: Lim::Count(b(Bop::Add, X::F(2), l(1))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }, FieldD { bytes: Some(l(4)), ..FieldD::new("g4", Ty::Int { w: 64, s: false }) }, FieldD { cond: Some(b(Bop::Ge, b(Bop::And, X::F(4), l(3)), l(2))), ..FieldD::new("g5", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bytes: Some(l(1)), ..FieldD::new("g6", Ty::Int { w: 16, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g7", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(7)), ..FieldD::new("g8", Ty::Vec(Box::new(Ty::Bool))) }] }, VariantD { name: "V2", id: Some(Val::N(10)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(20), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), ..FieldD::new("g1", Ty::Int { w: 64, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { bits: Some(l(16)), ..FieldD::new("g4", Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Int { w: 16, s: false }])) }, FieldD { bits: Some(l(7)), ..FieldD::new("g5", Ty::Int { w: 8, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(72), l(0xff)))), ..FieldD::new("g6", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V3", id: Some(Val::N(5)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(1)), lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(1))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { ..FieldD::new("g2", Ty::Float { w: 64 }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(134), l(0xff)))), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(l(2)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(195), l(0xff)))), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(X::Len(6)), hint: Hint::Range(0, 9), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(5)), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)))) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g7", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(7), l(3))), ..FieldD::new("g8", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 16, s: true }), 2)))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(23, 24)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(29)), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(2), l(1))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "i16")]
pub enum DE13 {
    #[deku(id = "20")]
    V0 { #[deku(bits = 8, update = "(g1.len() as i128)")] g0: u32, #[deku(bits = 5, count = "((*g0 as i128) + 1)")] g1: Box<[[u64; 2]]>, #[deku(bits = "88")] g2: i128 },
    #[deku(id = 59)]
    V1 { #[deku(bits = "64")] g0: u64, #[deku(bits = 2, pad_bits_after = "1")] g1: i16, #[deku(update = "(g3.len() as i128)")] g2: u16, #[deku(bits = 102, bits_read = "((*g2 as i128) * 102)")] g3: Vec<u128>, #[deku(bits = "1")] g4: u8, #[deku(bits = "4")] g5: u32, #[deku(bits = 71, bits_read = "((*g5 as i128) * 71)")] g6: std::sync::Arc<[i128]> },
}
impl Conv for DE13 {
    fn tv(&self) -> Val { match self { DE13::V0 { g0, g1, g2 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv()]), DE13::V1 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE13::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(1, i) => { let _ = i; DE13::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, _ => panic!("shape") } }
}
pub fn d_DE13() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE13", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(20)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), update: Some(X::Len(1)), hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(5)), lim: Lim::Count(b(Bop::Add, X::F(0), l(1))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)))) }, FieldD { bits: Some(l(88)), ..FieldD::new("g2", Ty::Int { w: 128, s: true }) }] }, VariantD { name: "V1", id: Some(Val::N(59)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(64)), ..FieldD::new("g0", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(2)), pad_bits_after: Some(l(1)), ..FieldD::new("g1", Ty::Int { w: 16, s: true }) }, FieldD { update: Some(X::Len(3)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(102)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(102))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 128, s: false }))) }, FieldD { bits: Some(l(1)), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g5", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(71)), lim: Lim::Bits(b(Bop::Mul, X::F(5), l(71))), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Int { w: 128, s: true }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct DS9 {
    pub f0: DS10,
    #[deku(skip, default = "(182) as u8")]
    pub f1: u8,
    pub f2: DE12,
    pub f3: f64,
    pub f4: DE13,
    pub f5: [f32; 3],
}
impl Conv for DS9 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS9 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_DS9() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS9", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Named(d_DS10)) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(182), l(0xff)))), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f2", Ty::Named(d_DE12)) }, FieldD { ..FieldD::new("f3", Ty::Float { w: 64 }) }, FieldD { ..FieldD::new("f4", Ty::Named(d_DE13)) }, FieldD { ..FieldD::new("f5", Ty::Arr(Box::new(Ty::Float { w: 32 }), 3)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct DS14 {
    #[deku(bytes = 2)]
    pub f0: u16,
    #[deku(bits = 8)]
    pub f1: std::num::NonZeroU16,
    #[deku(bits = 35, cond = "(((*f0 as i128) & 3) >= 2)")]
    pub f2: Option<usize>,
}
impl Conv for DS14 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS14 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_DS14() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS14", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(2)), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(8)), ..FieldD::new("f1", Ty::NonZero { w: 16, s: false }) }, FieldD { bits: Some(l(35)), cond: Some(b(Bop::Ge, b(Bop::And, X::F(0), l(3)), l(2))), ..FieldD::new("f2", Ty::Opt(Box::new(Ty::Int { w: 64, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct DS15 {
    #[deku(bits = 8)]
    pub f0: u8,
    #[deku(bytes_read = "((*f0 as i128) * 8)", pad_bits_before = "1")]
    pub f1: std::sync::Arc<[f64]>,
    #[deku(bits = 26, pad_bytes_before = "1")]
    pub f2: isize,
    #[deku(bits = 33)]
    pub f3: isize,
    #[deku(skip, default = "(8) as u8")]
    pub f4: u8,
    #[deku(read_all)]
    pub f5: Vec<u16>,
}
impl Conv for DS15 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS15 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_DS15() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS15", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(l(1)), lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Float { w: 64 }))) }, FieldD { bits: Some(l(26)), pad_bytes_before: Some(l(1)), ..FieldD::new("f2", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(33)), ..FieldD::new("f3", Ty::Int { w: 64, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(8), l(0xff)))), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::All, ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS17 {
    #[deku(bits = 5)]
    pub f0: u8,
    #[deku(bits = 32, bits_read = "((*f0 as i128) * 32)")]
    pub f1: Vec<i32>,
    #[deku(bits = 8)]
    pub f2: u32,
    #[deku(bits_read = "((*f2 as i128) * 32)", pad_bytes_before = "1")]
    pub f3: Box<[i32]>,
    pub f4: u32,
}
impl Conv for DS17 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS17 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_DS17() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS17", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(32)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(32))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 32, s: true }))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(32))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 32, s: true }))) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(magic = b"\xb4", endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS18 {
    pub f0: i32,
}
impl Conv for DS18 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS18 { f0: Conv::fv(&i[0]) } }
}
pub fn d_DS18() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS18", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 32, s: true }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: Some(b"\xb4"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb", id_type = "u32")]
pub enum DE16 {
    #[deku(id = "7")]
    V0 { #[deku(assert = "(((*g0 as i128) >= 3) && ((*g0 as i128) <= 90))")] g0: u32, g1: bool, g2: DS17, g3: u8, #[deku(bits = 8)] g4: u8, #[deku(count = "g4")] g5: Vec<DS18> },
    #[deku(id = 1)]
    V1,
}
impl Conv for DE16 {
    fn tv(&self) -> Val { match self { DE16::V0 { g0, g1, g2, g3, g4, g5 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), DE16::V1 => Val::Var(1, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE16::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(1, i) => { let _ = i; DE16::V1 }, _ => panic!("shape") } }
}
pub fn d_DE16() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE16", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(0), l(3)), b(Bop::Le, X::F(0), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Bool) }, FieldD { ..FieldD::new("g2", Ty::Named(d_DS17)) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(4)), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Named(d_DS18)))) }] }, VariantD { name: "V1", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS21 {
    #[deku(until = "|v: &u8| ((*v as i128) == 0)")]
    pub f0: Vec<u8>,
    #[deku(bits = "4")]
    pub f1: u8,
    #[deku(bits = 2, count = "((*f1 as i128) + 1)")]
    pub f2: Vec<u8>,
    #[deku(skip, default = "(193) as u8", magic = b"\x5d\xdc\x05")]
    pub f3: u8,
    #[deku(bits = "46")]
    pub f4: u64,
    pub f5: u64,
    #[deku(bits = 12)]
    pub f6: u64,
}
impl Conv for DS21 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS21 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_DS21() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS21", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), lim: Lim::Count(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(193), l(0xff)))), magic: Some(b"\x5d\xdc\x05"), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(46)), ..FieldD::new("f4", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("f5", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(12)), ..FieldD::new("f6", Ty::Int { w: 64, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "u16", bytes = 1)]
pub enum DE22 {
    #[deku(id = "20")]
    V0 { #[deku(bits = "4")] g0: u16, #[deku(bytes = "1", count = "((*g0 as i128) + 1)")] g1: std::sync::Arc<[u16]>, #[deku(bits = 5, update = "(g3.len() as i128)")] g2: u8, #[deku(bits = "40", bits_read = "((*g2 as i128) * 40)", pad_bits_before = "1", magic = b"\x7f\xbd")] g3: Vec<[std::num::NonZeroI64; 2]>, #[deku(bits = 8, update = "(g5.len() as i128)")] g4: u8, #[deku(bytes_read = "((*g4 as i128) * 8)")] g5: Vec<i64>, #[deku(until = "|v: &u16| ((*v as i128) == 1)")] g6: Vec<u16>, g7: (u8, u8,) },
    #[deku(id_pat = "_")]
    P { g0: u16, #[deku(until = "|v: &u16| ((*v as i128) == 1)")] g1: Vec<u16>, #[deku(bits = 8)] g2: u32, #[deku(bits = "1", count = "((*g2 as i128) + 2)")] g3: Vec<i16>, g4: f32, #[deku(bits = 8)] g5: u32, #[deku(bytes_read = "((*g5 as i128) * 8)", pad_bytes_after = "1", magic = b"\xce\x19")] g6: Box<[isize]> },
}
impl Conv for DE22 {
    fn tv(&self) -> Val { match self { DE22::V0 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), DE22::P { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE22::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(1, i) => { let _ = i; DE22::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, _ => panic!("shape") } }
}
pub fn d_DE22() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE22", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: None, order: None, bits: None, bytes: Some(1) }, variants: vec![VariantD { name: "V0", id: Some(Val::N(20)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(1)), lim: Lim::Count(b(Bop::Add, X::F(0), l(1))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(5)), update: Some(X::Len(3)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(40)), pad_bits_before: Some(l(1)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(40))), magic: Some(b"\x7f\xbd"), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::NonZero { w: 64, s: true }), 2)))) }, FieldD { bits: Some(l(8)), update: Some(X::Len(5)), hint: Hint::Range(0, 3), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(4), l(8))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("g7", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(1)), lim: Lim::Count(b(Bop::Add, X::F(2), l(2))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }, FieldD { ..FieldD::new("g4", Ty::Float { w: 32 }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g5", Ty::Int { w: 32, s: false }) }, FieldD { pad_bytes_after: Some(l(1)), lim: Lim::Bytes(b(Bop::Mul, X::F(5), l(8))), magic: Some(b"\xce\x19"), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\x21\xab\x14\xb8", endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS23 {
    #[deku(bits = "4")]
    pub f0: u16,
    #[deku(bytes_read = "((*f0 as i128) * 8)", pad_bytes_after = "3")]
    pub f1: Vec<f64>,
    #[deku(bits = "4")]
    pub f2: u8,
    #[deku(bits_read = "((*f2 as i128) * 64)", magic = b"\x2f\xb5\x22")]
    pub f3: Vec<usize>,
    pub f4: (i16, i16,),
    #[deku(bits = 5)]
    pub f5: u32,
    #[deku(bytes_read = "((*f5 as i128) * 2)", pad_bits_after = "1")]
    pub f6: Vec<i16>,
    #[deku(bits = 8)]
    pub f7: u8,
    #[deku(bytes = 8, count = "((*f7 as i128) + 0)")]
    pub f8: Vec<usize>,
}
impl Conv for DS23 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS23 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_DS23() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS23", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { pad_bytes_after: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Float { w: 64 }))) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(2), l(64))), magic: Some(b"\x2f\xb5\x22"), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 16, s: true }, Ty::Int { w: 16, s: true }])) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("f5", Ty::Int { w: 32, s: false }) }, FieldD { pad_bits_after: Some(l(1)), lim: Lim::Bytes(b(Bop::Mul, X::F(5), l(2))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(8)), lim: Lim::Count(b(Bop::Add, X::F(7), l(0))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: Some(b"\x21\xab\x14\xb8"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS20 {
    #[deku(skip, default = "(190) as u8")]
    pub f0: u8,
    pub f1: i32,
    pub f2: DS21,
    #[deku(bits = "4")]
    pub f3: u8,
    #[deku(bytes_read = "((*f3 as i128) * 1)")]
    pub f4: Box<[bool]>,
    #[deku(pad_bits_after = "1")]
    pub f5: DE22,
    pub f6: DS23,
}
impl Conv for DS20 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS20 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_DS20() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS20", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(190), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("f2", Ty::Named(d_DS21)) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(3), l(1))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { pad_bits_after: Some(l(1)), ..FieldD::new("f5", Ty::Named(d_DE22)) }, FieldD { ..FieldD::new("f6", Ty::Named(d_DS23)) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS25 {
    pub f0: u128,
    #[deku(bits = 5, update = "(self.f2.len() as i128)")]
    pub f1: u8,
    #[deku(bits = 15, bits_read = "((*f1 as i128) * 15)")]
    pub f2: Vec<u32>,
    #[deku(magic = b"\x60\x7a\x33")]
    pub f3: usize,
    #[deku(bits = 5)]
    pub f4: u16,
    #[deku(bits = 45, bits_read = "((*f4 as i128) * 45)", pad_bytes_before = "3")]
    pub f5: Box<[u64]>,
    #[deku(cond = "(((*f0 as i128) & 3) >= 2)")]
    pub f6: Option<isize>,
}
impl Conv for DS25 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS25 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_DS25() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS25", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(5)), update: Some(X::Len(2)), hint: Hint::Range(0, 9), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(15)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(15))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { magic: Some(b"\x60\x7a\x33"), ..FieldD::new("f3", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("f4", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(45)), pad_bytes_before: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(4), l(45))), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { cond: Some(b(Bop::Ge, b(Bop::And, X::F(0), l(3)), l(2))), ..FieldD::new("f6", Ty::Opt(Box::new(Ty::Int { w: 64, s: true }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS24 {
    pub f0: DS25,
    #[deku(bytes = 2)]
    pub f1: i64,
    #[deku(until = "|v: &u8| ((*v as i128) == 0)")]
    pub f2: Vec<u8>,
}
impl Conv for DS24 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS24 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_DS24() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS24", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Named(d_DS25)) }, FieldD { bytes: Some(l(2)), ..FieldD::new("f1", Ty::Int { w: 64, s: true }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "u8")]
pub enum DE26 {
    #[deku(id = "16")]
    V0 { #[deku(bits = "1")] g0: bool, #[deku(bits = 8)] g1: u8, #[deku(count = "g1")] g2: Vec<(f64, u8,)>, #[deku(until = "|v: &i8| ((*v as i128) == 0)")] g3: Vec<i8>, #[deku(assert = "(((*g4 as i128) >= 3) && ((*g4 as i128) <= 90))")] g4: i128, g5: i32 },
    #[deku(id = 7)]
    V1 { #[deku(bits = 8)] g0: Option<std::num::NonZeroU16>, #[deku(bits = 8)] g1: u8, #[deku(bits = 8, count = "g1")] g2: Vec<u16> },
    #[deku(id = "31")]
    V2 { #[deku(magic = b"\x81\xdc\xe5")] g0: Box<i128> },
}
impl Conv for DE26 {
    fn tv(&self) -> Val { match self { DE26::V0 { g0, g1, g2, g3, g4, g5 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), DE26::V1 { g0, g1, g2 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv()]), DE26::V2 { g0 } => Val::Var(2, vec![g0.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE26::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(1, i) => { let _ = i; DE26::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(2, i) => { let _ = i; DE26::V2 { g0: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_DE26() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE26", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(16)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(1)), ..FieldD::new("g0", Ty::Bool) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Float { w: 64 }, Ty::Int { w: 8, s: false }])))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(4), l(3)), b(Bop::Le, X::F(4), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g4", Ty::Int { w: 128, s: true }) }, FieldD { ..FieldD::new("g5", Ty::Int { w: 32, s: true }) }] }, VariantD { name: "V1", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), ..FieldD::new("g0", Ty::Opt(Box::new(Ty::NonZero { w: 16, s: false }))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }] }, VariantD { name: "V2", id: Some(Val::N(31)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { magic: Some(b"\x81\xdc\xe5"), ..FieldD::new("g0", Ty::Int { w: 128, s: true }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct DS19 {
    pub f0: DS20,
    pub f1: (DS24, DS24,),
    #[deku(bits = 80)]
    pub f2: std::num::NonZeroI128,
    pub f3: (DE26, DE26,),
}
impl Conv for DS19 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS19 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_DS19() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS19", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Named(d_DS20)) }, FieldD { ..FieldD::new("f1", Ty::Tup(vec![Ty::Named(d_DS24), Ty::Named(d_DS24)])) }, FieldD { bits: Some(l(80)), ..FieldD::new("f2", Ty::NonZero { w: 128, s: true }) }, FieldD { ..FieldD::new("f3", Ty::Tup(vec![Ty::Named(d_DE26), Ty::Named(d_DE26)])) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct DS27 {
    #[deku(skip, default = "(103) as u8")]
    pub f0: u8,
    #[deku(bits = 5, update = "(self.f2.len() as i128)")]
    pub f1: u8,
    #[deku(bits = 2, count = "f1", pad_bytes_after = "3")]
    pub f2: Box<[bool]>,
    #[deku(skip, default = "(187) as u8")]
    pub f3: u8,
    #[deku(assert = "(((*f4 as i128) >= 3) && ((*f4 as i128) <= 90))")]
    pub f4: i32,
    #[deku(bits = "1", magic = b"\xb6\xfb")]
    pub f5: u8,
    pub f6: i128,
}
impl Conv for DS27 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS27 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_DS27() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS27", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(103), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), update: Some(X::Len(2)), hint: Hint::Range(0, 6), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), pad_bytes_after: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(187), l(0xff)))), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(4), l(3)), b(Bop::Le, X::F(4), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(1)), magic: Some(b"\xb6\xfb"), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 128, s: true }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "i16", bits = 4)]
pub enum DE29 {
    #[deku(id = "2")]
    V0 { #[deku(bits = 32)] g0: std::num::NonZeroU32, #[deku(pad_bytes_before = "2", skip, default = "(60) as u8")] g1: u8 },
    #[deku(id = 7)]
    V1 { #[deku(bits = 8, update = "(g1.len() as i128)")] g0: u32, #[deku(bits = 104, bytes_read = "((*g0 as i128) * 13)")] g1: Box<[std::num::NonZeroI128]>, #[deku(bits = 5)] g2: u8, #[deku(bits_read = "((*g2 as i128) * 16)")] g3: Vec<[u8; 2]> },
    #[deku(id = "1")]
    V2 { #[deku(bits = "4")] g0: u32, #[deku(bits = 8, count = "g0")] g1: Vec<[std::num::NonZeroU8; 2]> },
    #[deku(id = 5)]
    V3 { g0: i128 },
}
impl Conv for DE29 {
    fn tv(&self) -> Val { match self { DE29::V0 { g0, g1 } => Val::Var(0, vec![g0.tv(), g1.tv()]), DE29::V1 { g0, g1, g2, g3 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), DE29::V2 { g0, g1 } => Val::Var(2, vec![g0.tv(), g1.tv()]), DE29::V3 { g0 } => Val::Var(3, vec![g0.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE29::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(1, i) => { let _ = i; DE29::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(2, i) => { let _ = i; DE29::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; DE29::V3 { g0: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_DE29() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE29", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: Some(4), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(32)), ..FieldD::new("g0", Ty::NonZero { w: 32, s: false }) }, FieldD { pad_bytes_before: Some(l(2)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(60), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), update: Some(X::Len(1)), hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(104)), lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(13))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::NonZero { w: 128, s: true }))) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(2), l(16))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)))) }] }, VariantD { name: "V2", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(8)), lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::NonZero { w: 8, s: false }), 2)))) }] }, VariantD { name: "V3", id: Some(Val::N(5)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 128, s: true }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\x34\xb2\xdc", endian = "little", bit_order = "msb")]
pub struct DS28 {
    #[deku(pad_bits_after = "1")]
    pub f0: Box<u16>,
    #[deku(bits = 5)]
    pub f1: u16,
    #[deku(until = "|v: &i8| ((*v as i128) == 0)")]
    pub f2: Vec<i8>,
    pub f3: DE29,
}
impl Conv for DS28 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS28 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_DS28() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS28", kind: Kind::Struct { fields: vec![FieldD { pad_bits_after: Some(l(1)), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(5)), ..FieldD::new("f1", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { ..FieldD::new("f3", Ty::Named(d_DE29)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: Some(b"\x34\xb2\xdc"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "i16", bits = 8)]
pub enum DE31 {
    #[deku(id = "42")]
    V0 { #[deku(bits = "4")] g0: u32, #[deku(bytes_read = "((*g0 as i128) * 8)")] g1: Vec<u64>, #[deku(bits = "7", pad_bytes_before = "1")] g2: u32, #[deku(bits = 24)] g3: isize },
}
impl Conv for DE31 {
    fn tv(&self) -> Val { match self { DE31::V0 { g0, g1, g2, g3 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE31::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_DE31() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE31", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: Some(8), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(42)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { bits: Some(l(7)), pad_bytes_before: Some(l(1)), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(24)), ..FieldD::new("g3", Ty::Int { w: 64, s: true }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct DS30 {
    #[deku(bits = 23)]
    pub f0: u32,
    pub f1: DE31,
    #[deku(bits = "28")]
    pub f2: usize,
    #[deku(assert = "(((*f3 as i128) >= 3) && ((*f3 as i128) <= 90))")]
    pub f3: u32,
    pub f4: (u16, u16,),
}
impl Conv for DS30 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS30 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_DS30() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS30", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(23)), ..FieldD::new("f0", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Named(d_DE31)) }, FieldD { bits: Some(l(28)), ..FieldD::new("f2", Ty::Int { w: 64, s: false }) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(3), l(3)), b(Bop::Le, X::F(3), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("f3", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Int { w: 16, s: false }])) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(magic = b"\xdf", endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct DS33 {
    #[deku(bits = "7")]
    pub f0: u16,
}
impl Conv for DS33 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS33 { f0: Conv::fv(&i[0]) } }
}
pub fn d_DS33() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS33", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(7)), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: Some(b"\xdf"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u16")]
pub enum DE34 {
    #[deku(id = "58")]
    V0 { #[deku(skip, default = "(140) as u8")] g0: u8, g1: i16, #[deku(bits = 9)] g2: u16, #[deku(until = "|v: &i8| ((*v as i128) == 0)")] g3: Vec<i8>, #[deku(update = "(g5.len() as i128)")] g4: u32, #[deku(count = "g4", pad_bytes_before = "3")] g5: Vec<[u8; 2]> },
    #[deku(id = 15)]
    V1,
}
impl Conv for DE34 {
    fn tv(&self) -> Val { match self { DE34::V0 { g0, g1, g2, g3, g4, g5 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), DE34::V1 => Val::Var(1, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE34::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(1, i) => { let _ = i; DE34::V1 }, _ => panic!("shape") } }
}
pub fn d_DE34() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE34", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(58)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(140), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(9)), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { update: Some(X::Len(5)), hint: Hint::Range(0, 6), ..FieldD::new("g4", Ty::Int { w: 32, s: false }) }, FieldD { pad_bytes_before: Some(l(3)), lim: Lim::Count(X::F(4)), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)))) }] }, VariantD { name: "V1", id: Some(Val::N(15)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u8")]
pub enum DE35 {
    #[deku(id = "54")]
    V0 { #[deku(bits = "4", update = "(g1.len() as i128)")] g0: u16, #[deku(bits = "7", count = "g0", pad_bits_before = "2")] g1: Vec<i8>, g2: Option<usize>, g3: i32 },
}
impl Conv for DE35 {
    fn tv(&self) -> Val { match self { DE35::V0 { g0, g1, g2, g3 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE35::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_DE35() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE35", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(54)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), update: Some(X::Len(1)), hint: Hint::Range(0, 7), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(7)), pad_bits_before: Some(l(2)), lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { ..FieldD::new("g2", Ty::Opt(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 32, s: true }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "u32")]
pub enum DE32 {
    #[deku(id = "59")]
    V0 { #[deku(bits = "31", pad_bits_before = "3")] g0: [u64; 3], #[deku(update = "(g2.len() as i128)")] g1: u32, #[deku(bits_read = "((*g1 as i128) * 40)", magic = b"\xcf")] g2: Box<[(i32, u8,)]>, #[deku(update = "(g4.len() as i128)")] g3: u16, #[deku(bits_read = "((*g3 as i128) * 15)")] g4: std::sync::Arc<[DS33]>, g5: u8, #[deku(bytes = 5, bytes_read = "((*g5 as i128) * 5)")] g6: std::sync::Arc<[(usize, u8,)]>, #[deku(bits = 8)] g7: u32, #[deku(count = "((*g7 as i128) + 2)")] g8: Box<[DE34]>, #[deku(bits = 8)] g9: u8, #[deku(bits = 59, count = "g9")] g10: Vec<isize> },
    #[deku(id = 51)]
    V1 { g0: DE35, #[deku(bits = "4")] g1: u8, g2: u32, #[deku(bits = 56, count = "g2")] g3: Box<[i64]>, g4: u8, g5: u64, #[deku(bits = 8)] g6: std::num::NonZeroU8 },
    #[deku(id = "12")]
    V2 { #[deku(bits = "1", pad_bits_after = "2")] g0: Option<u8> },
    #[deku(id = 42)]
    V3 { g0: f64, #[deku(until = "|v: &u8| ((*v as i128) == 0)")] g1: Vec<u8>, #[deku(skip, default = "(175) as u8")] g2: u8 },
}
impl Conv for DE32 {
    fn tv(&self) -> Val { match self { DE32::V0 { g0, g1, g2, g3, g4, g5, g6, g7, g8, g9, g10 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv(), g9.tv(), g10.tv()]), DE32::V1 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), DE32::V2 { g0 } => Val::Var(2, vec![g0.tv()]), DE32::V3 { g0, g1, g2 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE32::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]), g9: Conv::fv(&i[9]), g10: Conv::fv(&i[10]) } }, Val::Var(1, i) => { let _ = i; DE32::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(2, i) => { let _ = i; DE32::V2 { g0: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; DE32::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_DE32() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE32", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(59)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(31)), pad_bits_before: Some(l(3)), ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 3)) }, FieldD { update: Some(X::Len(2)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(1), l(40))), magic: Some(b"\xcf"), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { update: Some(X::Len(4)), hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(3), l(15))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Named(d_DS33)))) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(5)), lim: Lim::Bytes(b(Bop::Mul, X::F(5), l(5))), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 64, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g7", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(7), l(2))), ..FieldD::new("g8", Ty::Vec(Box::new(Ty::Named(d_DE34)))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g9", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(59)), lim: Lim::Count(X::F(9)), ..FieldD::new("g10", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }] }, VariantD { name: "V1", id: Some(Val::N(51)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Named(d_DE35)) }, FieldD { bits: Some(l(4)), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(56)), lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g5", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(8)), ..FieldD::new("g6", Ty::NonZero { w: 8, s: false }) }] }, VariantD { name: "V2", id: Some(Val::N(12)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(1)), pad_bits_after: Some(l(2)), ..FieldD::new("g0", Ty::Opt(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "V3", id: Some(Val::N(42)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Float { w: 64 }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(175), l(0xff)))), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct DS37 {
    #[deku(skip, default = "(142) as u8")]
    pub f0: u8,
    #[deku(bits = 32)]
    pub f1: isize,
}
impl Conv for DS37 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS37 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_DS37() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS37", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(142), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(32)), ..FieldD::new("f1", Ty::Int { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct DS36 {
    pub f0: std::num::NonZeroU8,
    pub f1: u8,
    #[deku(skip, default = "(27) as u8")]
    pub f2: u8,
    #[deku(bytes = "1")]
    pub f3: Option<u64>,
    pub f4: u8,
    #[deku(count = "f4")]
    pub f5: Vec<bool>,
    pub f6: DS37,
}
impl Conv for DS36 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS36 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_DS36() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS36", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::NonZero { w: 8, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(27), l(0xff)))), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(1)), ..FieldD::new("f3", Ty::Opt(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(4)), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { ..FieldD::new("f6", Ty::Named(d_DS37)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct DS39 {
    #[deku(update = "(self.f1.len() as i128)")]
    pub f0: u16,
    #[deku(bits = 93, bits_read = "((*f0 as i128) * 93)")]
    pub f1: Vec<i128>,
    #[deku(update = "(self.f3.len() as i128)")]
    pub f2: u8,
    #[deku(bits = "22", count = "f2")]
    pub f3: Vec<u32>,
    #[deku(update = "(self.f5.len() as i128)")]
    pub f4: u8,
    #[deku(bytes_read = "((*f4 as i128) * 1)")]
    pub f5: Vec<u8>,
}
impl Conv for DS39 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS39 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_DS39() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS39", kind: Kind::Struct { fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 3), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(93)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(93))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 128, s: true }))) }, FieldD { update: Some(X::Len(3)), hint: Hint::Range(0, 3), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(22)), lim: Lim::Count(X::F(2)), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { update: Some(X::Len(5)), hint: Hint::Range(0, 9), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(4), l(1))), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct DS40 {
    #[deku(skip, default = "(14) as u8")]
    pub f0: u8,
    pub f1: u8,
    #[deku(bits = 5)]
    pub f2: u32,
    #[deku(bytes_read = "((*f2 as i128) * 2)")]
    pub f3: Vec<(bool, u8,)>,
}
impl Conv for DS40 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS40 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_DS40() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS40", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(14), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(2), l(2))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Bool, Ty::Int { w: 8, s: false }])))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
pub enum DE38 {
    #[deku(id = "4")]
    V0,
    #[deku(id = 32)]
    V1 { g0: u32, #[deku(cond = "(((*g0 as i128) & 3) >= 1)")] g1: Option<u8>, #[deku(bits = 5)] g2: u16, #[deku(count = "g2")] g3: Box<[DS39]>, g4: u16, #[deku(bits_read = "((*g4 as i128) * 32)")] g5: Vec<u32>, #[deku(bits = "1")] g6: u8, #[deku(bits = 5)] g7: isize },
    #[deku(id = "27")]
    V2 { #[deku(until = "|v: &u16| ((*v as i128) == 1)")] g0: Vec<u16>, #[deku(assert = "(((*g1 as i128) >= 3) && ((*g1 as i128) <= 90))")] g1: u8, #[deku(bits = 8, update = "(g3.len() as i128)")] g2: u32, #[deku(bits_read = "((*g2 as i128) * 136)", pad_bytes_after = "2")] g3: std::sync::Arc<[(i128, u8,)]>, g4: isize, g5: u16, #[deku(count = "g5")] g6: std::sync::Arc<[DS40]> },
}
impl Conv for DE38 {
    fn tv(&self) -> Val { match self { DE38::V0 => Val::Var(0, vec![]), DE38::V1 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), DE38::V2 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE38::V0 }, Val::Var(1, i) => { let _ = i; DE38::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(2, i) => { let _ = i; DE38::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, _ => panic!("shape") } }
}
pub fn d_DE38() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE38", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(4)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V1", id: Some(Val::N(32)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { cond: Some(b(Bop::Ge, b(Bop::And, X::F(0), l(3)), l(1))), ..FieldD::new("g1", Ty::Opt(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Named(d_DS39)))) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g4", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(4), l(32))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(1)), ..FieldD::new("g6", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), ..FieldD::new("g7", Ty::Int { w: 64, s: true }) }] }, VariantD { name: "V2", id: Some(Val::N(27)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(1), l(3)), b(Bop::Le, X::F(1), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(3)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { pad_bytes_after: Some(l(2)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(136))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 128, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { ..FieldD::new("g4", Ty::Int { w: 64, s: true }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g5", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(5)), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Named(d_DS40)))) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "u16", bits = 7)]
pub enum DE43 {
    #[deku(id = "3")]
    V0 { #[deku(bits = 8, update = "(g1.len() as i128)")] g0: u8, #[deku(bits = 15, bits_read = "((*g0 as i128) * 15)")] g1: Vec<i16>, #[deku(bits = "4", update = "(g3.len() as i128)")] g2: u32, #[deku(bits = 21, bits_read = "((*g2 as i128) * 21)", pad_bytes_after = "1")] g3: Vec<i32>, g4: u16, #[deku(until = "|v: &u8| ((*v as i128) == 0)")] g5: Vec<u8>, #[deku(skip, default = "(66) as u8")] g6: u8 },
    #[deku(id_pat = "_")]
    P { g0: u16, #[deku(bits = "4", update = "(g2.len() as i128)")] g1: u8, #[deku(bits = 6, count = "g1")] g2: std::sync::Arc<[i32]>, #[deku(bits = "4", update = "(g4.len() as i128)")] g3: u16, #[deku(bytes_read = "((*g3 as i128) * 2)")] g4: std::sync::Arc<[[u8; 2]]>, #[deku(until = "|v: &u16| ((*v as i128) == 1)")] g5: Vec<u16>, #[deku(bits = 5, update = "(g7.len() as i128)")] g6: u8, #[deku(count = "g6", pad_bits_after = "3")] g7: Box<[u128]> },
}
impl Conv for DE43 {
    fn tv(&self) -> Val { match self { DE43::V0 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), DE43::P { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE43::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(1, i) => { let _ = i; DE43::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, _ => panic!("shape") } }
}
pub fn d_DE43() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE43", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: None, order: None, bits: Some(7), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), update: Some(X::Len(1)), hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(15)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(15))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }, FieldD { bits: Some(l(4)), update: Some(X::Len(3)), hint: Hint::Range(0, 7), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(21)), pad_bytes_after: Some(l(1)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(21))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 32, s: true }))) }, FieldD { ..FieldD::new("g4", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(66), l(0xff)))), ..FieldD::new("g6", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(4)), update: Some(X::Len(2)), hint: Hint::Range(0, 7), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(6)), lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 32, s: true }))) }, FieldD { bits: Some(l(4)), update: Some(X::Len(4)), hint: Hint::Range(0, 7), ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(3), l(2))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(5)), update: Some(X::Len(7)), hint: Hint::Range(0, 9), ..FieldD::new("g6", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), lim: Lim::Count(X::F(6)), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Int { w: 128, s: false }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS44 {
    #[deku(bits = "1", magic = b"\x7a\x9e")]
    pub f0: i16,
    #[deku(bits = 8, update = "(self.f2.len() as i128)")]
    pub f1: u8,
    #[deku(count = "f1")]
    pub f2: Vec<[usize; 2]>,
    pub f3: u8,
}
impl Conv for DS44 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS44 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_DS44() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS44", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(1)), magic: Some(b"\x7a\x9e"), ..FieldD::new("f0", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(2)), hint: Hint::Range(0, 9), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)))) }, FieldD { ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS42 {
    pub f0: i16,
    pub f1: DE43,
    pub f2: f32,
    #[deku(bits = "4", update = "(self.f4.len() as i128)")]
    pub f3: u8,
    #[deku(count = "f3")]
    pub f4: Vec<DS44>,
    pub f5: [[i64; 2]; 2],
}
impl Conv for DS42 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS42 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_DS42() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS42", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("f1", Ty::Named(d_DE43)) }, FieldD { ..FieldD::new("f2", Ty::Float { w: 32 }) }, FieldD { bits: Some(l(4)), update: Some(X::Len(4)), hint: Hint::Range(0, 7), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Named(d_DS44)))) }, FieldD { ..FieldD::new("f5", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)), 2)) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "msb")]
pub struct DS41 {
    #[deku(pad_bits_before = "2", skip, default = "(178) as u8")]
    pub f0: u8,
    pub f1: DS42,
    #[deku(until = "|v: &u16| ((*v as i128) == 1)")]
    pub f2: Vec<u16>,
    #[deku(pad_bytes_before = "2")]
    pub f3: i32,
    #[deku(bits = 8)]
    pub f4: u8,
    #[deku(bits = 50, bits_read = "((*f4 as i128) * 50)")]
    pub f5: Vec<usize>,
}
impl Conv for DS41 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS41 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_DS41() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS41", kind: Kind::Struct { fields: vec![FieldD { pad_bits_before: Some(l(2)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(178), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Named(d_DS42)) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { pad_bytes_before: Some(l(2)), ..FieldD::new("f3", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(50)), lim: Lim::Bits(b(Bop::Mul, X::F(4), l(50))), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct DS45 {
    pub f0: i8,
    #[deku(bits = "1", pad_bits_after = "3")]
    pub f1: bool,
    #[deku(skip, default = "(114) as u8")]
    pub f2: u8,
    #[deku(skip, default = "(145) as u8")]
    pub f3: u8,
    pub f4: i128,
    pub f5: Option<u64>,
}
impl Conv for DS45 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS45 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_DS45() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS45", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(1)), pad_bits_after: Some(l(3)), ..FieldD::new("f1", Ty::Bool) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(114), l(0xff)))), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(145), l(0xff)))), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 128, s: true }) }, FieldD { ..FieldD::new("f5", Ty::Opt(Box::new(Ty::Int { w: 64, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "lsb", id_type = "i8", bits = 8)]
pub enum DE46 {
    #[deku(id = "54")]
    V0 { g0: i8 },
    #[deku(id_pat = "_")]
    P { g0: i8, #[deku(bits = 6)] g1: isize, #[deku(magic = b"\x78\x20")] g2: [[u16; 2]; 2], #[deku(skip, default = "(100) as u8")] g3: u8 },
}
impl Conv for DE46 {
    fn tv(&self) -> Val { match self { DE46::V0 { g0 } => Val::Var(0, vec![g0.tv()]), DE46::P { g0, g1, g2, g3 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE46::V0 { g0: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; DE46::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_DE46() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE46", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: Some(8), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(54)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(6)), ..FieldD::new("g1", Ty::Int { w: 64, s: true }) }, FieldD { magic: Some(b"\x78\x20"), ..FieldD::new("g2", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)), 2)) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(100), l(0xff)))), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS48 {
    #[deku(bits = 8)]
    pub f0: u8,
    #[deku(count = "f0")]
    pub f1: Vec<u8>,
    #[deku(bits = 35)]
    pub f2: Box<i64>,
    #[deku(bits = 17)]
    pub f3: i128,
    #[deku(skip, default = "(65) as u8")]
    pub f4: u8,
}
impl Conv for DS48 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS48 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_DS48() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS48", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(35)), ..FieldD::new("f2", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(17)), ..FieldD::new("f3", Ty::Int { w: 128, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(65), l(0xff)))), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS49 {
    pub f0: Option<u16>,
    #[deku(pad_bytes_after = "3")]
    pub f1: Option<u128>,
    #[deku(bits = 5)]
    pub f2: i8,
}
impl Conv for DS49 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS49 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_DS49() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS49", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Opt(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { pad_bytes_after: Some(l(3)), ..FieldD::new("f1", Ty::Opt(Box::new(Ty::Int { w: 128, s: false }))) }, FieldD { bits: Some(l(5)), ..FieldD::new("f2", Ty::Int { w: 8, s: true }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "u32", bits = 4)]
pub enum DE50 {
    #[deku(id = "4")]
    V0 { #[deku(skip, default = "(36) as u8")] g0: u8 },
    #[deku(id_pat = "4..=7")]
    P { g0: u32, #[deku(skip, default = "(187) as u8")] g1: u8, #[deku(until = "|v: &u8| ((*v as i128) == 1)")] g2: Vec<u8> },
}
impl Conv for DE50 {
    fn tv(&self) -> Val { match self { DE50::V0 { g0 } => Val::Var(0, vec![g0.tv()]), DE50::P { g0, g1, g2 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE50::V0 { g0: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; DE50::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_DE50() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE50", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: Some(4), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(4)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(36), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(4, 7)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(187), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS51 {
    #[deku(bits = "4")]
    pub f0: u32,
    #[deku(bits = 3, bits_read = "((*f0 as i128) * 3)")]
    pub f1: Vec<[u16; 2]>,
}
impl Conv for DS51 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS51 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_DS51() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS51", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(3))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS52 {
    #[deku(bits = 8)]
    pub f0: u32,
    #[deku(count = "((*f0 as i128) + 0)", magic = b"\xb5\xd9")]
    pub f1: Vec<u16>,
    #[deku(bits = 8)]
    pub f2: u8,
    #[deku(bits = "46", bits_read = "((*f2 as i128) * 46)")]
    pub f3: Box<[[u64; 2]]>,
    pub f4: i64,
    #[deku(bits = 5)]
    pub f5: u8,
    #[deku(bits = "7")]
    pub f6: u8,
}
impl Conv for DS52 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS52 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_DS52() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS52", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("f0", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(0), l(0))), magic: Some(b"\xb5\xd9"), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(46)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(46))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)))) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(5)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb", id_type = "u32", bits = 4)]
pub enum DE47 {
    #[deku(id = "5")]
    V0 { g0: DS48, #[deku(bits = "22")] g1: u64, #[deku(skip, default = "(80) as u8")] g2: u8, #[deku(bits = 5, update = "(g4.len() as i128)")] g3: u16, #[deku(bits_read = "((*g3 as i128) * 128)")] g4: std::sync::Arc<[i128]>, #[deku(skip, default = "(127) as u8")] g5: u8 },
    #[deku(id = 2)]
    V1 { #[deku(skip, default = "(82) as u8")] g0: u8, #[deku(bits = "16")] g1: u64, #[deku(bits = 8)] g2: u16, #[deku(count = "((*g2 as i128) + 1)")] g3: Box<[DS49]>, #[deku(bits = 8)] g4: u8, #[deku(count = "g4", pad_bits_before = "1")] g5: std::sync::Arc<[(i16, u8,)]>, #[deku(bits = 8)] g6: u16, #[deku(count = "g6")] g7: std::sync::Arc<[DE50]> },
    #[deku(id = "4")]
    V2 { #[deku(assert = "(((*g0 as i128) >= 3) && ((*g0 as i128) <= 90))")] g0: isize, g1: f64, #[deku(bits = "4", update = "(g3.len() as i128)")] g2: u8, #[deku(count = "((*g2 as i128) + 0)")] g3: Box<[DS51]> },
    #[deku(id = 6)]
    V3 { g0: DS52, #[deku(bits = "7")] g1: u8, #[deku(bits = "4")] g2: u32, #[deku(bits = "4", count = "g2")] g3: Vec<(u32, u8,)>, #[deku(bits = 2, pad_bytes_after = "1")] g4: Box<u8>, #[deku(bits = 102)] g5: u128, #[deku(until = "|v: &u16| ((*v as i128) == 1)")] g6: Vec<u16> },
}
impl Conv for DE47 {
    fn tv(&self) -> Val { match self { DE47::V0 { g0, g1, g2, g3, g4, g5 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), DE47::V1 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), DE47::V2 { g0, g1, g2, g3 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), DE47::V3 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE47::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(1, i) => { let _ = i; DE47::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(2, i) => { let _ = i; DE47::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(3, i) => { let _ = i; DE47::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, _ => panic!("shape") } }
}
pub fn d_DE47() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE47", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: Some(4), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(5)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Named(d_DS48)) }, FieldD { bits: Some(l(22)), ..FieldD::new("g1", Ty::Int { w: 64, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(80), l(0xff)))), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), update: Some(X::Len(4)), hint: Hint::Range(0, 9), ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(3), l(128))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 128, s: true }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(127), l(0xff)))), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(82), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(16)), ..FieldD::new("g1", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(2), l(1))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Named(d_DS49)))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(l(1)), lim: Lim::Count(X::F(4)), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 16, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g6", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(6)), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Named(d_DE50)))) }] }, VariantD { name: "V2", id: Some(Val::N(4)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(0), l(3)), b(Bop::Le, X::F(0), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("g1", Ty::Float { w: 64 }) }, FieldD { bits: Some(l(4)), update: Some(X::Len(3)), hint: Hint::Range(0, 7), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(2), l(0))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Named(d_DS51)))) }] }, VariantD { name: "V3", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Named(d_DS52)) }, FieldD { bits: Some(l(7)), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(4)), lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(2)), pad_bytes_after: Some(l(1)), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(102)), ..FieldD::new("g5", Ty::Int { w: 128, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "order", ctx = "order: deku::ctx::Order", id_type = "u8")]
pub enum DE55 {
    #[deku(id = "49")]
    V0 { g0: i8, g1: [u16; 4], #[deku(bits = "4")] g2: u8, #[deku(bits = 11, bits_read = "((*g2 as i128) * 11)")] g3: Vec<[usize; 2]>, #[deku(bits = 3)] g4: u16 },
    #[deku(id = 25)]
    V1 { #[deku(bits = "4")] g0: u16, g1: u8, #[deku(bits = 8)] g2: u16, #[deku(count = "g2")] g3: std::sync::Arc<[i128]>, #[deku(bits = 8, update = "(g5.len() as i128)")] g4: u8, #[deku(bits = 11, count = "((*g4 as i128) + 0)")] g5: Box<[u16]> },
    #[deku(id = "60")]
    V2 { #[deku(bits = 5, update = "(g1.len() as i128)")] g0: u8, #[deku(bytes_read = "((*g0 as i128) * 16)")] g1: Vec<[isize; 2]>, g2: u64, g3: i16 },
    #[deku(id_pat = "58..=64")]
    P { g0: u8, g1: i32, #[deku(bits = 8)] g2: u8, #[deku(bits = "16", bits_read = "((*g2 as i128) * 16)")] g3: Vec<i128> },
}
impl Conv for DE55 {
    fn tv(&self) -> Val { match self { DE55::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), DE55::V1 { g0, g1, g2, g3, g4, g5 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), DE55::V2 { g0, g1, g2, g3 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), DE55::P { g0, g1, g2, g3 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE55::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(1, i) => { let _ = i; DE55::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(2, i) => { let _ = i; DE55::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(3, i) => { let _ = i; DE55::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_DE55() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE55", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(49)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }, FieldD { ..FieldD::new("g1", Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 4)) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(11))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)))) }, FieldD { bits: Some(l(3)), ..FieldD::new("g4", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(25)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 128, s: true }))) }, FieldD { bits: Some(l(8)), update: Some(X::Len(5)), hint: Hint::Range(0, 6), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), lim: Lim::Count(b(Bop::Add, X::F(4), l(0))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }] }, VariantD { name: "V2", id: Some(Val::N(60)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(5)), update: Some(X::Len(1)), hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(16))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)))) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 16, s: true }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(58, 64)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(16)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(16))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 128, s: true }))) }] }] }, endian: None, order: Some(OrderSpec::Ctx(0)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "order", ctx = "order: deku::ctx::Order")]
pub struct DS54 {
    #[deku(bits = "4")]
    pub f0: u8,
    #[deku(bits = 35, bits_read = "((*f0 as i128) * 35)")]
    pub f1: std::sync::Arc<[usize]>,
    #[deku(assert = "(((*f2 as i128) >= 3) && ((*f2 as i128) <= 90))")]
    pub f2: i16,
    pub f3: DE55,
}
impl Conv for DS54 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS54 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_DS54() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS54", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(35)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(35))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(2), l(3)), b(Bop::Le, X::F(2), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("f2", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("f3", Ty::Named(d_DE55)) }], seek: None }, endian: None, order: Some(OrderSpec::Ctx(0)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "order", ctx = "order: deku::ctx::Order")]
pub struct DS56 {
    pub f0: i128,
    pub f1: [[u32; 2]; 2],
    pub f2: (u8, u8,),
    #[deku(bits = 8, update = "(self.f4.len() as i128)")]
    pub f3: u16,
    #[deku(count = "f3")]
    pub f4: Vec<(i32, u8,)>,
    #[deku(assert = "(((*f5 as i128) >= 3) && ((*f5 as i128) <= 90))")]
    pub f5: usize,
    #[deku(until = "|v: &u16| ((*v as i128) == 0)")]
    pub f6: Vec<u16>,
}
impl Conv for DS56 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS56 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_DS56() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS56", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 128, s: true }) }, FieldD { ..FieldD::new("f1", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)), 2)) }, FieldD { ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])) }, FieldD { bits: Some(l(8)), update: Some(X::Len(4)), hint: Hint::Range(0, 6), ..FieldD::new("f3", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(5), l(3)), b(Bop::Le, X::F(5), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("f5", Ty::Int { w: 64, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: None, order: Some(OrderSpec::Ctx(0)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "msb")]
pub struct DS53 {
    #[deku(bits = 45)]
    pub f0: i64,
    pub f1: DS54,
    #[deku(bits = "4")]
    pub f2: bool,
    #[deku(bits = "4")]
    pub f3: u8,
    #[deku(count = "((*f3 as i128) + 1)")]
    pub f4: std::sync::Arc<[(u8, u8,)]>,
    #[deku(bits = "4")]
    pub f5: u16,
    #[deku(count = "f5")]
    pub f6: std::sync::Arc<[DS56]>,
    #[deku(magic = b"\xb8")]
    pub f7: i16,
}
impl Conv for DS53 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS53 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]) } }
}
pub fn d_DS53() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS53", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(45)), ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("f1", Ty::Named(d_DS54)) }, FieldD { bits: Some(l(4)), ..FieldD::new("f2", Ty::Bool) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(3), l(1))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f5", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(5)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Named(d_DS56)))) }, FieldD { magic: Some(b"\xb8"), ..FieldD::new("f7", Ty::Int { w: 16, s: true }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct DS57 {
    #[deku(bits = "4")]
    pub f0: bool,
    pub f1: usize,
    #[deku(cond = "(((*f1 as i128) & 3) >= 2)")]
    pub f2: Option<f32>,
    #[deku(skip, default = "(196) as u8", magic = b"\x43")]
    pub f3: u8,
}
impl Conv for DS57 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS57 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_DS57() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS57", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("f0", Ty::Bool) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 64, s: false }) }, FieldD { cond: Some(b(Bop::Ge, b(Bop::And, X::F(1), l(3)), l(2))), ..FieldD::new("f2", Ty::Opt(Box::new(Ty::Float { w: 32 }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(196), l(0xff)))), magic: Some(b"\x43"), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct DS58 {
    #[deku(bits = "34")]
    pub f0: u128,
}
impl Conv for DS58 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS58 { f0: Conv::fv(&i[0]) } }
}
pub fn d_DS58() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS58", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(34)), ..FieldD::new("f0", Ty::Int { w: 128, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct DS59 {
    #[deku(bits = "40")]
    pub f0: isize,
    #[deku(bits = 8)]
    pub f1: u16,
    #[deku(bits = 8, count = "((*f1 as i128) + 1)")]
    pub f2: Vec<[std::num::NonZeroU8; 2]>,
    #[deku(bits = "4")]
    pub f3: u16,
    #[deku(count = "f3", magic = b"\xa9")]
    pub f4: std::sync::Arc<[isize]>,
    pub f5: f64,
    #[deku(bits = "4")]
    pub f6: bool,
}
impl Conv for DS59 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS59 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_DS59() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS59", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(40)), ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("f1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(8)), lim: Lim::Count(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::NonZero { w: 8, s: false }), 2)))) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f3", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), magic: Some(b"\xa9"), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { ..FieldD::new("f5", Ty::Float { w: 64 }) }, FieldD { bits: Some(l(4)), ..FieldD::new("f6", Ty::Bool) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct DS61 {
    pub f0: u8,
    pub f1: u8,
    #[deku(bits = 3, bits_read = "((*f1 as i128) * 3)")]
    pub f2: Box<[i8]>,
    #[deku(bits = "82")]
    pub f3: u128,
}
impl Conv for DS61 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS61 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_DS61() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS61", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(3))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(82)), ..FieldD::new("f3", Ty::Int { w: 128, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "u8", bits = 6)]
pub enum DE60 {
    #[deku(id = "28")]
    V0,
    #[deku(id = 17)]
    V1 { g0: DS61 },
    #[deku(id_pat = "_")]
    P { g0: u8, #[deku(bits = 8)] g1: u32, #[deku(bits_read = "((*g1 as i128) * 16)")] g2: Vec<u16>, #[deku(update = "(g4.len() as i128)")] g3: u32, #[deku(bits = 6, count = "g3")] g4: Vec<u8> },
}
impl Conv for DE60 {
    fn tv(&self) -> Val { match self { DE60::V0 => Val::Var(0, vec![]), DE60::V1 { g0 } => Val::Var(1, vec![g0.tv()]), DE60::P { g0, g1, g2, g3, g4 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE60::V0 }, Val::Var(1, i) => { let _ = i; DE60::V1 { g0: Conv::fv(&i[0]) } }, Val::Var(2, i) => { let _ = i; DE60::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_DE60() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE60", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(6), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(28)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V1", id: Some(Val::N(17)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Named(d_DS61)) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(1), l(16))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { update: Some(X::Len(4)), hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(6)), lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct DS63 {
    pub f0: [i128; 1],
    #[deku(bytes = 8)]
    pub f1: isize,
    #[deku(bits = 9)]
    pub f2: i32,
    pub f3: u32,
    #[deku(count = "f3")]
    pub f4: Vec<[usize; 2]>,
}
impl Conv for DS63 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS63 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_DS63() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS63", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Arr(Box::new(Ty::Int { w: 128, s: true }), 1)) }, FieldD { bytes: Some(l(8)), ..FieldD::new("f1", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(9)), ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f3", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "u8", bits = 5)]
pub enum DE62 {
    #[deku(id = "11")]
    V0 { g0: DS63, g1: (u128, u128,), g2: u16, #[deku(bytes = "7", count = "g2")] g3: Vec<(u128, u8,)>, #[deku(pad_bits_after = "1")] g4: u16, #[deku(assert = "(((*g5 as i128) >= 3) && ((*g5 as i128) <= 90))")] g5: i8, #[deku(magic = b"\xca\xcd\xc6")] g6: std::num::NonZeroI32 },
    #[deku(id = 10)]
    V1 { #[deku(bits = 8)] g0: i8, g1: std::num::NonZeroI8, #[deku(pad_bytes_before = "3")] g2: isize, #[deku(until = "|v: &i8| ((*v as i128) == 1)")] g3: Vec<i8>, #[deku(bits = 9, magic = b"\x39\x5e")] g4: i16 },
    #[deku(id_pat = "_")]
    P { g0: u8, #[deku(bits = "4")] g1: bool, #[deku(magic = b"\x5f")] g2: i64, #[deku(bits = 8, update = "(g4.len() as i128)")] g3: u8, #[deku(bits_read = "((*g3 as i128) * 136)")] g4: Vec<(i128, u8,)>, #[deku(bits = 72)] g5: i128, g6: u32, #[deku(bits = "10", count = "g6")] g7: Vec<u128>, #[deku(bytes = 5)] g8: usize },
}
impl Conv for DE62 {
    fn tv(&self) -> Val { match self { DE62::V0 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), DE62::V1 { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), DE62::P { g0, g1, g2, g3, g4, g5, g6, g7, g8 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE62::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(1, i) => { let _ = i; DE62::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(2, i) => { let _ = i; DE62::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]) } }, _ => panic!("shape") } }
}
pub fn d_DE62() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE62", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(5), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(11)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Named(d_DS63)) }, FieldD { ..FieldD::new("g1", Ty::Tup(vec![Ty::Int { w: 128, s: false }, Ty::Int { w: 128, s: false }])) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(7)), lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 128, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { pad_bits_after: Some(l(1)), ..FieldD::new("g4", Ty::Int { w: 16, s: false }) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(5), l(3)), b(Bop::Le, X::F(5), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g5", Ty::Int { w: 8, s: true }) }, FieldD { magic: Some(b"\xca\xcd\xc6"), ..FieldD::new("g6", Ty::NonZero { w: 32, s: true }) }] }, VariantD { name: "V1", id: Some(Val::N(10)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }, FieldD { ..FieldD::new("g1", Ty::NonZero { w: 8, s: true }) }, FieldD { pad_bytes_before: Some(l(3)), ..FieldD::new("g2", Ty::Int { w: 64, s: true }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(9)), magic: Some(b"\x39\x5e"), ..FieldD::new("g4", Ty::Int { w: 16, s: true }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("g1", Ty::Bool) }, FieldD { magic: Some(b"\x5f"), ..FieldD::new("g2", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(4)), hint: Hint::Range(0, 9), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(3), l(136))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 128, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(72)), ..FieldD::new("g5", Ty::Int { w: 128, s: true }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(10)), lim: Lim::Count(X::F(6)), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Int { w: 128, s: false }))) }, FieldD { bytes: Some(l(5)), ..FieldD::new("g8", Ty::Int { w: 64, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "i8")]
pub enum DE65 {
    #[deku(id = "57")]
    V0 { #[deku(bits = "16")] g0: u16, g1: std::num::NonZeroU64, #[deku(bits = 62)] g2: i64, #[deku(bits = 8)] g3: u8, #[deku(bytes_read = "((*g3 as i128) * 2)")] g4: Vec<[i8; 2]>, g5: u8, #[deku(bits_read = "((*g5 as i128) * 8)")] g6: Vec<u8> },
    #[deku(id = 46)]
    V1 { #[deku(skip, default = "(4) as u8")] g0: u8, #[deku(update = "(g2.len() as i128)")] g1: u16, #[deku(bits = 8, bytes_read = "((*g1 as i128) * 1)")] g2: Vec<(i32, u8,)> },
    #[deku(id = "58")]
    V2 { #[deku(assert = "(((*g0 as i128) >= 3) && ((*g0 as i128) <= 90))")] g0: usize, #[deku(until = "|v: &u8| ((*v as i128) == 1)", magic = b"\xcd")] g1: Vec<u8>, #[deku(skip, default = "(49) as u8")] g2: u8, g3: u16, #[deku(count = "g3")] g4: Vec<i8> },
    #[deku(id = 41)]
    V3 { #[deku(bits = 8)] g0: u16, #[deku(count = "g0", magic = b"\x71")] g1: Vec<i16>, g2: u8, g3: u8, #[deku(assert = "(((*g4 as i128) >= 3) && ((*g4 as i128) <= 90))")] g4: u8, g5: u8, #[deku(bits = 3, count = "g5")] g6: Vec<(u8, u8,)>, #[deku(bits = 3)] g7: u8 },
}
impl Conv for DE65 {
    fn tv(&self) -> Val { match self { DE65::V0 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), DE65::V1 { g0, g1, g2 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv()]), DE65::V2 { g0, g1, g2, g3, g4 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), DE65::V3 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE65::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(1, i) => { let _ = i; DE65::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(2, i) => { let _ = i; DE65::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(3, i) => { let _ = i; DE65::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, _ => panic!("shape") } }
}
pub fn d_DE65() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE65", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(57)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(16)), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("g1", Ty::NonZero { w: 64, s: false }) }, FieldD { bits: Some(l(62)), ..FieldD::new("g2", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(3), l(2))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: true }), 2)))) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(5), l(8))), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "V1", id: Some(Val::N(46)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(4), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(X::Len(2)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(8)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(1))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: true }, Ty::Int { w: 8, s: false }])))) }] }, VariantD { name: "V2", id: Some(Val::N(58)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(0), l(3)), b(Bop::Le, X::F(0), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g0", Ty::Int { w: 64, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), magic: Some(b"\xcd"), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(49), l(0xff)))), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }] }, VariantD { name: "V3", id: Some(Val::N(41)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), magic: Some(b"\x71"), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(4), l(3)), b(Bop::Le, X::F(4), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(3)), lim: Lim::Count(X::F(5)), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(3)), ..FieldD::new("g7", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "u32", bytes = 1)]
pub enum DE64 {
    #[deku(id = "23")]
    V0 { #[deku(assert = "(((*g0 as i128) >= 3) && ((*g0 as i128) <= 90))")] g0: u16, g1: u8, #[deku(count = "g1", magic = b"\x06")] g2: Vec<u128>, #[deku(bits = 6)] g3: u8, #[deku(bits = 8)] g4: u16, #[deku(bits = 14, count = "g4", pad_bytes_after = "1")] g5: Vec<(u128, u8,)>, #[deku(bits = "4")] g6: u16, #[deku(count = "((*g6 as i128) + 1)")] g7: Vec<DE65>, g8: bool },
    #[deku(id = 25)]
    V1 { g0: u8, g1: i16 },
    #[deku(id_pat = "_")]
    P { g0: u32, #[deku(bits = 5)] g1: u16, #[deku(count = "((*g1 as i128) + 0)")] g2: Box<[isize]> },
}
impl Conv for DE64 {
    fn tv(&self) -> Val { match self { DE64::V0 { g0, g1, g2, g3, g4, g5, g6, g7, g8 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv()]), DE64::V1 { g0, g1 } => Val::Var(1, vec![g0.tv(), g1.tv()]), DE64::P { g0, g1, g2 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE64::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]) } }, Val::Var(1, i) => { let _ = i; DE64::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(2, i) => { let _ = i; DE64::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_DE64() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE64", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: Some(1) }, variants: vec![VariantD { name: "V0", id: Some(Val::N(23)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(0), l(3)), b(Bop::Le, X::F(0), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), magic: Some(b"\x06"), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 128, s: false }))) }, FieldD { bits: Some(l(6)), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g4", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(14)), pad_bytes_after: Some(l(1)), lim: Lim::Count(X::F(4)), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 128, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g6", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(6), l(1))), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Named(d_DE65)))) }, FieldD { ..FieldD::new("g8", Ty::Bool) }] }, VariantD { name: "V1", id: Some(Val::N(25)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 16, s: true }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(1), l(0))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct DS66 {
    #[deku(bits = 24)]
    pub f0: [u64; 2],
    pub f1: i8,
    #[deku(bits = 6, read_all)]
    pub f2: Vec<u16>,
}
impl Conv for DS66 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS66 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_DS66() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS66", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(24)), ..FieldD::new("f0", Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(6)), lim: Lim::All, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct DS67 {
    #[deku(skip, default = "(174) as u8")]
    pub f0: u8,
    #[deku(until = "|v: &i8| ((*v as i128) == 1)")]
    pub f1: Vec<i8>,
    #[deku(bits = 101, read_all)]
    pub f2: Vec<[u128; 2]>,
}
impl Conv for DS67 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS67 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_DS67() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS67", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(174), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(101)), lim: Lim::All, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 128, s: false }), 2)))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct DS68 {
    pub f0: u32,
    #[deku(bits = 6)]
    pub f1: i64,
    #[deku(bits = "4")]
    pub f2: bool,
    #[deku(bits = 30)]
    pub f3: i64,
    #[deku(bits = "40")]
    pub f4: usize,
}
impl Conv for DS68 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS68 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_DS68() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS68", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(6)), ..FieldD::new("f1", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(4)), ..FieldD::new("f2", Ty::Bool) }, FieldD { bits: Some(l(30)), ..FieldD::new("f3", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(40)), ..FieldD::new("f4", Ty::Int { w: 64, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct DS71 {
    #[deku(bits = "58")]
    pub f0: i64,
}
impl Conv for DS71 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS71 { f0: Conv::fv(&i[0]) } }
}
pub fn d_DS71() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS71", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(58)), ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct DS72 {
    #[deku(until = "|v: &i8| ((*v as i128) == 0)")]
    pub f0: Vec<i8>,
    #[deku(bytes = "1")]
    pub f1: u16,
}
impl Conv for DS72 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS72 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_DS72() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS72", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bytes: Some(l(1)), ..FieldD::new("f1", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u32")]
pub enum DE73 {
    #[deku(id = "48")]
    V0 { g0: u128 },
    #[deku(id = 10)]
    V1 { g0: u32, g1: bool, g2: bool },
}
impl Conv for DE73 {
    fn tv(&self) -> Val { match self { DE73::V0 { g0 } => Val::Var(0, vec![g0.tv()]), DE73::V1 { g0, g1, g2 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE73::V0 { g0: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; DE73::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_DE73() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE73", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(48)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 128, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(10)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Bool) }, FieldD { ..FieldD::new("g2", Ty::Bool) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct DS74 {
    pub f0: [[bool; 2]; 2],
    #[deku(until = "|v: &i8| ((*v as i128) == 0)")]
    pub f1: Vec<i8>,
    #[deku(bits = 3)]
    pub f2: i8,
    #[deku(update = "(self.f4.len() as i128)")]
    pub f3: u32,
    #[deku(bits = 53, count = "f3", pad_bytes_before = "1")]
    pub f4: Vec<(u64, u8,)>,
    #[deku(update = "(self.f6.len() as i128)")]
    pub f5: u16,
    #[deku(bits = "7", count = "((*f5 as i128) + 1)")]
    pub f6: std::sync::Arc<[[u8; 2]]>,
    #[deku(bits = "13")]
    pub f7: u16,
}
impl Conv for DS74 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS74 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]) } }
}
pub fn d_DS74() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS74", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Bool), 2)), 2)) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(3)), ..FieldD::new("f2", Ty::Int { w: 8, s: true }) }, FieldD { update: Some(X::Len(4)), hint: Hint::Range(0, 6), ..FieldD::new("f3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(53)), pad_bytes_before: Some(l(1)), lim: Lim::Count(X::F(3)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 64, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { update: Some(X::Len(6)), hint: Hint::Range(0, 9), ..FieldD::new("f5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(7)), lim: Lim::Count(b(Bop::Add, X::F(5), l(1))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)))) }, FieldD { bits: Some(l(13)), ..FieldD::new("f7", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct DS70 {
    pub f0: Box<DS71>,
    #[deku(pad_bits_before = "2")]
    pub f1: DS72,
    pub f2: DE73,
    #[deku(pad_bits_before = "2")]
    pub f3: DS74,
    #[deku(skip, default = "(138) as u8")]
    pub f4: u8,
}
impl Conv for DS70 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS70 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_DS70() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS70", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Named(d_DS71)) }, FieldD { pad_bits_before: Some(l(2)), ..FieldD::new("f1", Ty::Named(d_DS72)) }, FieldD { ..FieldD::new("f2", Ty::Named(d_DE73)) }, FieldD { pad_bits_before: Some(l(2)), ..FieldD::new("f3", Ty::Named(d_DS74)) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(138), l(0xff)))), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct DS75 {
    pub f0: u16,
    pub f1: u8,
    #[deku(bits = 2, count = "f1")]
    pub f2: Vec<(bool, u8,)>,
    #[deku(bytes = 8)]
    pub f3: u64,
}
impl Conv for DS75 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS75 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_DS75() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS75", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Bool, Ty::Int { w: 8, s: false }])))) }, FieldD { bytes: Some(l(8)), ..FieldD::new("f3", Ty::Int { w: 64, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u8", bits = 6)]
pub enum DE76 {
    #[deku(id = "13")]
    V0 { #[deku(skip, default = "(113) as u8")] g0: u8, #[deku(until = "|v: &i8| ((*v as i128) == 1)")] g1: Vec<i8> },
}
impl Conv for DE76 {
    fn tv(&self) -> Val { match self { DE76::V0 { g0, g1 } => Val::Var(0, vec![g0.tv(), g1.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE76::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_DE76() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE76", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(6), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(13)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(113), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct DS69 {
    pub f0: f32,
    pub f1: DS70,
    pub f2: Box<DS75>,
    #[deku(bits = "4")]
    pub f3: u8,
    #[deku(bytes = 14)]
    pub f4: i128,
    pub f5: DE76,
}
impl Conv for DS69 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS69 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_DS69() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS69", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("f1", Ty::Named(d_DS70)) }, FieldD { ..FieldD::new("f2", Ty::Named(d_DS75)) }, FieldD { bits: Some(l(4)), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(14)), ..FieldD::new("f4", Ty::Int { w: 128, s: true }) }, FieldD { ..FieldD::new("f5", Ty::Named(d_DE76)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS78 {
    #[deku(bits = 8)]
    pub f0: u8,
    #[deku(count = "((*f0 as i128) + 0)")]
    pub f1: Box<[i16]>,
    #[deku(bits = 5)]
    pub f2: u8,
    #[deku(count = "f2")]
    pub f3: Vec<u128>,
}
impl Conv for DS78 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS78 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_DS78() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS78", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(0), l(0))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 3), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 128, s: false }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS79 {
    pub f0: u8,
}
impl Conv for DS79 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS79 { f0: Conv::fv(&i[0]) } }
}
pub fn d_DS79() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS79", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "msb")]
pub struct DS77 {
    #[deku(bits = 8)]
    pub f0: u16,
    #[deku(count = "f0")]
    pub f1: Vec<DS78>,
    #[deku(pad_bits_after = "2")]
    pub f2: DS79,
    #[deku(bits = "76")]
    pub f3: i128,
    #[deku(skip, default = "(2) as u8")]
    pub f4: u8,
    #[deku(skip, default = "(5) as u8")]
    pub f5: u8,
    pub f6: i32,
}
impl Conv for DS77 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS77 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_DS77() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS77", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Named(d_DS78)))) }, FieldD { pad_bits_after: Some(l(2)), ..FieldD::new("f2", Ty::Named(d_DS79)) }, FieldD { bits: Some(l(76)), ..FieldD::new("f3", Ty::Int { w: 128, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xff)))), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(5), l(0xff)))), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 32, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "i16", bits = 4)]
pub enum DE82 {
    #[deku(id = "0")]
    V0,
    #[deku(id = 4)]
    V1,
    #[deku(id = "5")]
    V2 { g0: (std::num::NonZeroU32, std::num::NonZeroU32,), g1: u32, #[deku(bytes = 8, count = "g1")] g2: std::sync::Arc<[isize]>, #[deku(bits = 8)] g3: u16, #[deku(bits = 8, update = "(g5.len() as i128)")] g4: u32, #[deku(bits = "4", bits_read = "((*g4 as i128) * 4)")] g5: Vec<bool> },
    #[deku(id = 6)]
    V3 { #[deku(skip, default = "(194) as u8")] g0: u8, #[deku(skip, default = "(76) as u8")] g1: u8 },
    #[deku(id_pat = "_")]
    P { g0: i16, g1: Option<u8>, g2: u32, #[deku(count = "g2")] g3: Vec<bool> },
}
impl Conv for DE82 {
    fn tv(&self) -> Val { match self { DE82::V0 => Val::Var(0, vec![]), DE82::V1 => Val::Var(1, vec![]), DE82::V2 { g0, g1, g2, g3, g4, g5 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), DE82::V3 { g0, g1 } => Val::Var(3, vec![g0.tv(), g1.tv()]), DE82::P { g0, g1, g2, g3 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE82::V0 }, Val::Var(1, i) => { let _ = i; DE82::V1 }, Val::Var(2, i) => { let _ = i; DE82::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(3, i) => { let _ = i; DE82::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(4, i) => { let _ = i; DE82::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_DE82() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE82", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: Some(4), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V1", id: Some(Val::N(4)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V2", id: Some(Val::N(5)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Tup(vec![Ty::NonZero { w: 32, s: false }, Ty::NonZero { w: 32, s: false }])) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(8)), lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { bits: Some(l(8)), ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(5)), hint: Hint::Range(0, 9), ..FieldD::new("g4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(4)), lim: Lim::Bits(b(Bop::Mul, X::F(4), l(4))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Bool))) }] }, VariantD { name: "V3", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(194), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(76), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("g1", Ty::Opt(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Bool))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct DS81 {
    #[deku(skip, default = "(199) as u8")]
    pub f0: u8,
    #[deku(bits = 5)]
    pub f1: u8,
    #[deku(bytes_read = "((*f1 as i128) * 2)")]
    pub f2: Vec<(u8, u8,)>,
    #[deku(magic = b"\x75\xb9\xcf")]
    pub f3: u16,
    pub f4: u32,
    pub f5: i8,
    pub f6: DE82,
}
impl Conv for DS81 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS81 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_DS81() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS81", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(199), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(2))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { magic: Some(b"\x75\xb9\xcf"), ..FieldD::new("f3", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("f5", Ty::Int { w: 8, s: true }) }, FieldD { ..FieldD::new("f6", Ty::Named(d_DE82)) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct DS80 {
    #[deku(bits = 2)]
    pub f0: [[i8; 2]; 2],
    pub f1: u32,
    #[deku(bits_read = "((*f1 as i128) * 8)")]
    pub f2: Vec<i8>,
    pub f3: u8,
    #[deku(count = "((*f3 as i128) + 1)", pad_bits_before = "3")]
    pub f4: std::sync::Arc<[DS81]>,
    pub f5: u16,
    #[deku(bits = "7", count = "f5")]
    pub f6: Vec<u8>,
    pub f7: Box<i128>,
    #[deku(bits = 23, pad_bits_after = "1")]
    pub f8: i64,
}
impl Conv for DS80 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS80 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_DS80() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS80", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(2)), ..FieldD::new("f0", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: true }), 2)), 2)) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("f1", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(1), l(8))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(l(3)), lim: Lim::Count(b(Bop::Add, X::F(3), l(1))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Named(d_DS81)))) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("f5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(7)), lim: Lim::Count(X::F(5)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("f7", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(23)), pad_bits_after: Some(l(1)), ..FieldD::new("f8", Ty::Int { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS84 {
    #[deku(bits = 32)]
    pub f0: std::num::NonZeroU32,
    pub f1: i8,
    #[deku(bits = "4")]
    pub f2: u32,
    #[deku(bits_read = "((*f2 as i128) * 16)")]
    pub f3: Vec<[u8; 2]>,
    pub f4: bool,
    #[deku(bits = 5)]
    pub f5: u8,
    #[deku(count = "((*f5 as i128) + 1)")]
    pub f6: Box<[i16]>,
}
impl Conv for DS84 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS84 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_DS84() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS84", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(32)), ..FieldD::new("f0", Ty::NonZero { w: 32, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(2), l(16))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)))) }, FieldD { ..FieldD::new("f4", Ty::Bool) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(5), l(1))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct DS83 {
    pub f0: i64,
    pub f1: DS84,
}
impl Conv for DS83 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS83 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_DS83() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS83", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("f1", Ty::Named(d_DS84)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct DS85 {
    pub f0: u32,
    #[deku(bits = 78, pad_bits_before = "1", cond = "(((*f0 as i128) & 3) >= 1)")]
    pub f1: Option<i128>,
    #[deku(bits = 45)]
    pub f2: Option<i64>,
    #[deku(bits = "4")]
    pub f3: u16,
    pub f4: (i64, i64,),
}
impl Conv for DS85 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS85 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_DS85() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS85", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(78)), pad_bits_before: Some(l(1)), cond: Some(b(Bop::Ge, b(Bop::And, X::F(0), l(3)), l(1))), ..FieldD::new("f1", Ty::Opt(Box::new(Ty::Int { w: 128, s: true }))) }, FieldD { bits: Some(l(45)), ..FieldD::new("f2", Ty::Opt(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { bits: Some(l(4)), ..FieldD::new("f3", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 64, s: true }, Ty::Int { w: 64, s: true }])) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS87 {
    #[deku(bits = "4")]
    pub f0: i8,
}
impl Conv for DS87 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS87 { f0: Conv::fv(&i[0]) } }
}
pub fn d_DS87() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS87", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("f0", Ty::Int { w: 8, s: true }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct DS88 {
    pub f0: u16,
    #[deku(bits = 8, update = "(self.f2.len() as i128)")]
    pub f1: u8,
    #[deku(count = "f1")]
    pub f2: Box<[i8]>,
    #[deku(until = "|v: &i8| ((*v as i128) == 0)")]
    pub f3: Vec<i8>,
    #[deku(bits = 8)]
    pub f4: u8,
    #[deku(bytes_read = "((*f4 as i128) * 3)")]
    pub f5: std::sync::Arc<[(u16, u8,)]>,
    #[deku(bits = 8)]
    pub f6: u8,
    #[deku(bits = "1", bits_read = "((*f6 as i128) * 1)")]
    pub f7: std::sync::Arc<[[bool; 2]]>,
}
impl Conv for DS88 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; DS88 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]) } }
}
pub fn d_DS88() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DS88", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(2)), hint: Hint::Range(0, 3), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(4), l(3))), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(1)), lim: Lim::Bits(b(Bop::Mul, X::F(6), l(1))), ..FieldD::new("f7", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Bool), 2)))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "u8", bits = 6)]
pub enum DE89 {
    #[deku(id = "24")]
    V0 { g0: i8 },
    #[deku(id_pat = "17..=30")]
    P { g0: u8, #[deku(bits = "49")] g1: usize, #[deku(bits = "4", magic = b"\x25")] g2: bool, #[deku(bits = 5)] g3: u32, #[deku(count = "g3", magic = b"\x5f\x90\x48")] g4: Vec<u32>, g5: u64 },
}
impl Conv for DE89 {
    fn tv(&self) -> Val { match self { DE89::V0 { g0 } => Val::Var(0, vec![g0.tv()]), DE89::P { g0, g1, g2, g3, g4, g5 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE89::V0 { g0: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; DE89::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, _ => panic!("shape") } }
}
pub fn d_DE89() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE89", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(6), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(24)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(17, 30)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(49)), ..FieldD::new("g1", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(4)), magic: Some(b"\x25"), ..FieldD::new("g2", Ty::Bool) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), magic: Some(b"\x5f\x90\x48"), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { ..FieldD::new("g5", Ty::Int { w: 64, s: false }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb", id_type = "u8", bits = 8)]
pub enum DE86 {
    #[deku(id = "35")]
    V0 { #[deku(magic = b"\x23\x95\xe4")] g0: DS87, #[deku(bits = 5)] g1: u8, #[deku(bits = "16", bytes_read = "((*g1 as i128) * 2)")] g2: Vec<std::num::NonZeroU16>, g3: i64, g4: bool, g5: DS88, g6: u8 },
    #[deku(id = 22)]
    V1 { g0: DE89, g1: u16, #[deku(bits = 5)] g2: u8, #[deku(count = "((*g2 as i128) + 0)")] g3: Vec<bool> },
    #[deku(id_pat = "_")]
    P { g0: u8, #[deku(skip, default = "(79) as u8")] g1: u8, g2: Option<i8>, #[deku(bits = "4")] g3: u8, #[deku(bits = "31", count = "g3")] g4: std::sync::Arc<[u32]> },
}
impl Conv for DE86 {
    fn tv(&self) -> Val { match self { DE86::V0 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), DE86::V1 { g0, g1, g2, g3 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), DE86::P { g0, g1, g2, g3, g4 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; DE86::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(1, i) => { let _ = i; DE86::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(2, i) => { let _ = i; DE86::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_DE86() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "DE86", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(8), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(35)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { magic: Some(b"\x23\x95\xe4"), ..FieldD::new("g0", Ty::Named(d_DS87)) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(16)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(2))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::NonZero { w: 16, s: false }))) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("g4", Ty::Bool) }, FieldD { ..FieldD::new("g5", Ty::Named(d_DS88)) }, FieldD { ..FieldD::new("g6", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(22)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Named(d_DE89)) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(2), l(0))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Bool))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(79), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g2", Ty::Opt(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(31)), lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

pub fn entries() -> Vec<Entry> {
    let mut v = vec![];
    v.push(Entry { name: "DS1", tags: &["bits", "default", "endian", "read_all", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_tup"], decl: d_DS1, ops: ops::<DS1>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS3", tags: &["bits", "bytes_read", "default", "skip", "ty_arr", "ty_int", "ty_list", "ty_ptr", "until"], decl: d_DS3, ops: ops::<DS3>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DE4", tags: &["bits", "bits_read", "count", "default", "endian", "enum", "magic", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup", "until", "update"], decl: d_DE4, ops: ops::<DE4>(), deku_id: Some(deku_id::<DE4, u8>), size_bits: None });
    v.push(Entry { name: "DS6", tags: &["bits", "count", "pad", "ty_int", "ty_list", "ty_tup", "until", "update"], decl: d_DS6, ops: ops::<DS6>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS7", tags: &["bits", "count", "default", "endian", "magic", "order", "pad", "skip", "ty_float", "ty_int", "ty_list", "ty_named", "ty_ptr"], decl: d_DS7, ops: ops::<DS7>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS9", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "default", "endian", "id_pat", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_opt", "ty_ptr", "ty_tup"], decl: d_DS9, ops: ops::<DS9>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS14", tags: &["bits", "bytes", "cond", "endian", "order", "ty_int", "ty_nz", "ty_opt"], decl: d_DS14, ops: ops::<DS14>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS15", tags: &["bits", "bytes_read", "default", "endian", "pad", "read_all", "skip", "ty_float", "ty_int", "ty_list", "ty_ptr"], decl: d_DS15, ops: ops::<DS15>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DE16", tags: &["assert", "bits", "bits_read", "count", "endian", "enum", "magic", "order", "pad", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_ptr"], decl: d_DE16, ops: ops::<DE16>(), deku_id: Some(deku_id::<DE16, u32>), size_bits: None });
    v.push(Entry { name: "DS19", tags: &["assert", "bits", "bits_read", "bytes", "bytes_read", "cond", "count", "default", "endian", "id_pat", "magic", "order", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_opt", "ty_ptr", "ty_tup", "until"], decl: d_DS19, ops: ops::<DS19>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS27", tags: &["assert", "bits", "count", "default", "magic", "pad", "skip", "ty_bool", "ty_int", "ty_list", "ty_ptr", "update"], decl: d_DS27, ops: ops::<DS27>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS28", tags: &["bits", "bits_read", "bytes_read", "count", "default", "endian", "magic", "order", "pad", "skip", "ty_arr", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "until"], decl: d_DS28, ops: ops::<DS28>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS30", tags: &["assert", "bits", "bytes_read", "endian", "order", "pad", "ty_int", "ty_list", "ty_named", "ty_tup"], decl: d_DS30, ops: ops::<DS30>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DE32", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "default", "endian", "enum", "magic", "pad", "skip", "ty_arr", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_opt", "ty_ptr", "ty_tup", "until", "update"], decl: d_DE32, ops: ops::<DE32>(), deku_id: Some(deku_id::<DE32, u32>), size_bits: None });
    v.push(Entry { name: "DS36", tags: &["bits", "bytes", "count", "default", "endian", "skip", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_opt"], decl: d_DS36, ops: ops::<DS36>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DE38", tags: &["assert", "bits", "bits_read", "bytes_read", "cond", "count", "default", "enum", "pad", "skip", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_opt", "ty_ptr", "ty_tup", "until", "update"], decl: d_DE38, ops: ops::<DE38>(), deku_id: Some(deku_id::<DE38, u8>), size_bits: None });
    v.push(Entry { name: "DS41", tags: &["bits", "bits_read", "bytes_read", "count", "default", "endian", "id_pat", "magic", "order", "pad", "skip", "ty_arr", "ty_float", "ty_int", "ty_list", "ty_named", "ty_ptr", "until"], decl: d_DS41, ops: ops::<DS41>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS45", tags: &["bits", "default", "endian", "order", "pad", "skip", "ty_bool", "ty_int", "ty_opt"], decl: d_DS45, ops: ops::<DS45>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DE46", tags: &["bits", "default", "endian", "enum", "id_pat", "magic", "order", "size", "skip", "ty_arr", "ty_int"], decl: d_DE46, ops: ops::<DE46>(), deku_id: Some(deku_id::<DE46, i8>), size_bits: Some((<DE46 as DekuSize>::SIZE_BITS, 94)) });
    v.push(Entry { name: "DE47", tags: &["assert", "bits", "bits_read", "count", "default", "endian", "enum", "id_pat", "magic", "order", "pad", "skip", "ty_arr", "ty_float", "ty_int", "ty_list", "ty_named", "ty_opt", "ty_ptr", "ty_tup", "until", "update"], decl: d_DE47, ops: ops::<DE47>(), deku_id: Some(deku_id::<DE47, u32>), size_bits: None });
    v.push(Entry { name: "DS53", tags: &["assert", "bits", "bits_read", "bytes_read", "count", "id_pat", "magic", "order", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup", "until"], decl: d_DS53, ops: ops::<DS53>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS57", tags: &["bits", "cond", "default", "endian", "magic", "order", "skip", "ty_bool", "ty_float", "ty_int", "ty_opt"], decl: d_DS57, ops: ops::<DS57>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS58", tags: &["bits", "endian", "order", "size", "ty_int"], decl: d_DS58, ops: ops::<DS58>(), deku_id: None, size_bits: Some((<DS58 as DekuSize>::SIZE_BITS, 34)) });
    v.push(Entry { name: "DS59", tags: &["bits", "count", "endian", "magic", "order", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_nz", "ty_ptr"], decl: d_DS59, ops: ops::<DS59>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DE60", tags: &["bits", "bits_read", "count", "endian", "enum", "id_pat", "ty_int", "ty_list", "ty_named", "ty_ptr", "update"], decl: d_DE60, ops: ops::<DE60>(), deku_id: Some(deku_id::<DE60, u8>), size_bits: None });
    v.push(Entry { name: "DE62", tags: &["assert", "bits", "bits_read", "bytes", "count", "endian", "enum", "id_pat", "magic", "pad", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_tup", "until", "update"], decl: d_DE62, ops: ops::<DE62>(), deku_id: Some(deku_id::<DE62, u8>), size_bits: None });
    v.push(Entry { name: "DE64", tags: &["assert", "bits", "bits_read", "bytes_read", "count", "default", "endian", "enum", "id_pat", "magic", "pad", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "ty_tup", "until"], decl: d_DE64, ops: ops::<DE64>(), deku_id: Some(deku_id::<DE64, u32>), size_bits: None });
    v.push(Entry { name: "DS66", tags: &["bits", "endian", "read_all", "ty_arr", "ty_int", "ty_list"], decl: d_DS66, ops: ops::<DS66>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS67", tags: &["bits", "default", "endian", "read_all", "skip", "ty_arr", "ty_int", "ty_list", "until"], decl: d_DS67, ops: ops::<DS67>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS68", tags: &["bits", "endian", "size", "ty_bool", "ty_int"], decl: d_DS68, ops: ops::<DS68>(), deku_id: None, size_bits: Some((<DS68 as DekuSize>::SIZE_BITS, 112)) });
    v.push(Entry { name: "DS69", tags: &["bits", "bytes", "count", "default", "endian", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup", "until"], decl: d_DS69, ops: ops::<DS69>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS77", tags: &["bits", "count", "default", "endian", "order", "pad", "skip", "ty_int", "ty_list", "ty_named", "ty_ptr"], decl: d_DS77, ops: ops::<DS77>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS80", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "default", "endian", "id_pat", "magic", "pad", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_opt", "ty_ptr", "ty_tup"], decl: d_DS80, ops: ops::<DS80>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS83", tags: &["bits", "bits_read", "count", "endian", "order", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr"], decl: d_DS83, ops: ops::<DS83>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DS85", tags: &["bits", "cond", "endian", "pad", "ty_int", "ty_opt", "ty_tup"], decl: d_DS85, ops: ops::<DS85>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "DE86", tags: &["bits", "bits_read", "bytes_read", "count", "default", "endian", "enum", "id_pat", "magic", "order", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_opt", "ty_ptr", "ty_tup", "until"], decl: d_DE86, ops: ops::<DE86>(), deku_id: Some(deku_id::<DE86, u8>), size_bits: None });
    v
}
