// @generated by gen_zoo.py
#![allow(clippy::all, unused_parens, unused_variables, dead_code, non_camel_case_types, non_snake_case, unused_imports, unused_mut)]
use deku::prelude::*;
use std::sync::OnceLock;
use vcore::custom;
use vcore::model::*;
use vcore::ops::{deku_id, ops, Entry};
use vcore::val::{Conv, Val};

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "order", ctx = "order: deku::ctx::Order, k: u8", id_type = "u8")]
pub enum GI2 {
    #[deku(id = 0)]
    V0 { #[deku(endian = "little", bytes = 2, pad_bits_before = "1", update = "(((*g0 as i128) & 15) + 29)")] g0: u64, #[deku(assert = "(((*g1 as i128) <= 58) && ((*g1 as i128) >= 0))")] g1: isize, #[deku(bits = "1")] g2: bool, #[deku(count = "((*g0 as i128) % 3)", pad_bytes_before = "3", magic = b"\x58\xce\x88")] g3: Vec<(u16, u8,)>, #[deku(count = "((*g0 as i128) % 2)")] g4: Vec<u8> },
    #[deku(id = "1")]
    V1 { #[deku(bits_read = "(((k as i128) % 4) * 32)")] g0: Vec<u32>, g1: u8 },
    #[deku(id = 2)]
    V2 { #[deku(bits = 56, bytes_read = "(((k as i128) % 4) * 7)", pad_bits_after = "7")] g0: Vec<(u128, u8,)>, #[deku(pad_bytes_before = "((k as i128) % 4)", update = "13")] g1: usize },
    #[deku(id = "9", default)]
    D,
}
impl Conv for GI2 {
    fn tv(&self) -> Val { match self { GI2::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), GI2::V1 { g0, g1 } => Val::Var(1, vec![g0.tv(), g1.tv()]), GI2::V2 { g0, g1 } => Val::Var(2, vec![g0.tv(), g1.tv()]), GI2::D => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GI2::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(1, i) => { let _ = i; GI2::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(2, i) => { let _ = i; GI2::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; GI2::D }, _ => panic!("shape") } }
}
pub fn d_GI2() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI2", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(2)), pad_bits_before: Some(l(1)), update: Some(b(Bop::Add, b(Bop::And, X::F(0), l(15)), l(29))), ..FieldD::new("g0", Ty::Int { w: 64, s: false }) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Le, X::F(1), l(58)), b(Bop::Ge, X::F(1), l(0)))), hint: Hint::Range(0, 58), ..FieldD::new("g1", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(1)), ..FieldD::new("g2", Ty::Bool) }, FieldD { pad_bytes_before: Some(l(3)), lim: Lim::Count(b(Bop::Rem, X::F(0), l(3))), magic: Some(b"\x58\xce\x88"), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { lim: Lim::Count(b(Bop::Rem, X::F(0), l(2))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "V1", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { lim: Lim::Bits(b(Bop::Mul, b(Bop::Rem, X::C(1), l(4)), l(32))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V2", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(56)), pad_bits_after: Some(l(7)), lim: Lim::Bytes(b(Bop::Mul, b(Bop::Rem, X::C(1), l(4)), l(7))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 128, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { pad_bytes_before: Some(b(Bop::Rem, X::C(1), l(4))), update: Some(l(13)), hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(9)), explicit_id: true, pat: None, default: true, fields: vec![] }] }, endian: None, order: Some(OrderSpec::Ctx(0)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "msb", id_type = "u8")]
pub enum GE1 {
    #[deku(id = 25)]
    V0(#[deku(until = "|v: &u8| ((*v as i128) == 0)", cond = "(3 != 0)")] Vec<u8>, #[deku(assert = "(((*field_1 as i128) <= 29) && ((*field_1 as i128) >= 0))")] i128, #[deku(bits = "2", skip, cond = "(3 >= 1)")] bool, #[deku(update = "((field_0.len() as i128) & 15)")] u128, #[deku(until = "|v: &u8| ((*v as i128) < 100)", skip, cond = "(1 < 2)")] Vec<u8>),
    #[deku(id = "6")]
    V1 { #[deku(count = "3")] g0: std::sync::Arc<[usize]> },
    #[deku(id = 1)]
    V2 { #[deku(pad_bits_before = "0", ctx = "(0) as u8")] g0: GI2 },
    #[deku(id = "56")]
    V3 { #[deku(bits = 5)] g0: [i8; 2], #[deku(until = "|v: &u8| ((*v as i128) < 100)", skip, magic = b"\x25\x04")] g1: Vec<u8>, #[deku(bits = "4")] g2: bool },
}
impl Conv for GE1 {
    fn tv(&self) -> Val { match self { GE1::V0(field_0, field_1, field_2, field_3, field_4) => Val::Var(0, vec![field_0.tv(), field_1.tv(), field_2.tv(), field_3.tv(), field_4.tv()]), GE1::V1 { g0 } => Val::Var(1, vec![g0.tv()]), GE1::V2 { g0 } => Val::Var(2, vec![g0.tv()]), GE1::V3 { g0, g1, g2 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE1::V0(Conv::fv(&i[0]), Conv::fv(&i[1]), Conv::fv(&i[2]), Conv::fv(&i[3]), Conv::fv(&i[4])) }, Val::Var(1, i) => { let _ = i; GE1::V1 { g0: Conv::fv(&i[0]) } }, Val::Var(2, i) => { let _ = i; GE1::V2 { g0: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; GE1::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_GE1() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE1", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(25)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { cond: Some(b(Bop::Ne, l(3), l(0))), lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("field_0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Le, X::F(1), l(29)), b(Bop::Ge, X::F(1), l(0)))), hint: Hint::Range(0, 29), ..FieldD::new("field_1", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(2)), cond: Some(b(Bop::Ge, l(3), l(1))), skip: Skip::All, ..FieldD::new("field_2", Ty::Bool) }, FieldD { update: Some(b(Bop::And, X::Len(0), l(15))), ..FieldD::new("field_3", Ty::Int { w: 128, s: false }) }, FieldD { cond: Some(b(Bop::Lt, l(1), l(2))), lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), skip: Skip::All, ..FieldD::new("field_4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "V1", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { lim: Lim::Count(l(3)), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }] }, VariantD { name: "V2", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bits_before: Some(l(0)), ctx: vec![b(Bop::And, l(0), l(0xff))], ..FieldD::new("g0", Ty::Named(d_GI2)) }] }, VariantD { name: "V3", id: Some(Val::N(56)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Int { w: 8, s: true }), 2)) }, FieldD { lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), skip: Skip::All, magic: Some(b"\x25\x04"), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(4)), ..FieldD::new("g2", Ty::Bool) }] }] }, endian: None, order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(ctx = "k: u8")]
pub struct GI4 {
    #[deku(bits = "7")]
    pub f0: i8,
    #[deku(endian = "big", pad_bytes_after = "((k as i128) % 4)")]
    pub f1: u8,
}
impl Conv for GI4 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GI4 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_GI4() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI4", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(7)), ..FieldD::new("f0", Ty::Int { w: 8, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bytes_after: Some(b(Bop::Rem, X::C(0), l(4))), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct GI5 {
    #[deku(bits = "40", update = "((self.f3.len() as i128) & 15)")]
    pub f0: u64,
    #[deku(endian = "big", bit_order = "msb", bits = 17, update = "(((self.f0 as i128) & 15) + 53)")]
    pub f1: u32,
    #[deku(endian = "big", bit_order = "lsb")]
    pub f2: i128,
    #[deku(until = "|v: &u8| ((*v as i128) == 0)")]
    pub f3: Vec<u8>,
}
impl Conv for GI5 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GI5 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_GI5() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI5", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(40)), update: Some(b(Bop::And, X::Len(3), l(15))), ..FieldD::new("f0", Ty::Int { w: 64, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(17)), update: Some(b(Bop::Add, b(Bop::And, X::F(0), l(15)), l(53))), ..FieldD::new("f1", Ty::Int { w: 32, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f2", Ty::Int { w: 128, s: true }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct GS3 {
    #[deku(count = "1")]
    pub f0: std::sync::Arc<[(u16, u8,)]>,
    #[deku(ctx = "(1) as u8")]
    pub f1: GI4,
    #[deku(temp, temp_value = "((f3.len() as i128)) as u8")]
    pub f2: u8,
    #[deku(count = "f2")]
    pub f3: Vec<[u16; 2]>,
    pub f4: GI5,
    #[deku(bits = 9, pad_bits_before = "7", assert_eq = "(4) as u16")]
    pub f5: u16,
}
impl Conv for GS3 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS3 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f3: Conv::fv(&i[2]), f4: Conv::fv(&i[3]), f5: Conv::fv(&i[4]) } }
}
pub fn d_GS3() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS3", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Count(l(1)), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { ctx: vec![b(Bop::And, l(1), l(0xff))], ..FieldD::new("f1", Ty::Named(d_GI4)) }, FieldD { temp_value: Some(b(Bop::And, X::Len(3), l(0xff))), temp: true, hint: Hint::Range(0, 6), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)))) }, FieldD { ..FieldD::new("f4", Ty::Named(d_GI5)) }, FieldD { bits: Some(l(9)), pad_bits_before: Some(l(7)), assert_eq: Some(b(Bop::And, l(4), l(0xffff))), hint: Hint::Range(4, 4), ..FieldD::new("f5", Ty::Int { w: 16, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\xfa\x77", endian = "big", bit_order = "lsb")]
pub struct GS6 {
    #[deku(bits = 50, bits_read = "(3 * 50)", assert = "((f0.len() as i128) < 4)")]
    pub f0: std::sync::Arc<[[u128; 2]]>,
    #[deku(endian = "little", map = "custom::map_even")]
    pub f1: u16,
    #[deku(skip, cond = "(3 == 1)", default = "(2) as u32")]
    pub f2: u32,
    #[deku(bits = 48, assert = "((*f3 as i128) < 23)")]
    pub f3: isize,
    pub f4: i32,
}
impl Conv for GS6 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS6 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_GS6() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS6", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(50)), assert: Some(b(Bop::Lt, X::Len(0), l(4))), lim: Lim::Bits(b(Bop::Mul, l(3), l(50))), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 128, s: false }), 2)))) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), map: Some((Ty::Int { w: 16, s: false }, custom::m_map_even)), ..FieldD::new("f1", Ty::Int { w: 16, s: false }) }, FieldD { cond: Some(b(Bop::Eq, l(3), l(1))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(48)), assert: Some(b(Bop::Lt, X::F(3), l(23))), hint: Hint::Range(0, 22), ..FieldD::new("f3", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 32, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: Some(b"\xfa\x77"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "u128")]
pub enum GE7 {
    #[deku(id = 56)]
    V0(#[deku(pad_bytes_after = "0")] u32),
    #[deku(id = "6")]
    V1 { #[deku(until = "|v: &u8| ((*v as i128) < 100)")] g0: Vec<u8>, #[deku(bits = "1")] g1: bool, #[deku(bits = 128, pad_bits_after = "1")] g2: u128, #[deku(count = "1")] g3: Vec<u8>, #[deku(bits = 15)] g4: u16 },
    #[deku(id = 23)]
    V2 { #[deku(pad_bytes_before = "2", until = "|v: &u8| ((*v as i128) < 100)")] g0: Vec<u8>, g1: u128, #[deku(endian = "little", bit_order = "msb", bits = "1")] g2: bool, #[deku(count = "((deku::bit_offset as i128) % 3)")] g3: Vec<(std::num::NonZeroU64, u8,)>, #[deku(bits = 5, assert_eq = "(3) as i8")] g4: i8 },
    #[deku(id_pat = "7..=29")]
    P { g0: u128, #[deku(skip(read), default = "(1) as usize", assert_eq = "(1) as usize")] g1: usize, #[deku(endian = "little", bit_order = "msb", pad_bits_before = "1")] g2: [isize; 2], #[deku(count = "2")] g3: Vec<f32>, #[deku(bits = "1", pad_bytes_before = "0", assert = "((*g4 as i128) < 2)")] g4: u32 },
}
impl Conv for GE7 {
    fn tv(&self) -> Val { match self { GE7::V0(field_0) => Val::Var(0, vec![field_0.tv()]), GE7::V1 { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), GE7::V2 { g0, g1, g2, g3, g4 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), GE7::P { g0, g1, g2, g3, g4 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE7::V0(Conv::fv(&i[0])) }, Val::Var(1, i) => { let _ = i; GE7::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(2, i) => { let _ = i; GE7::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(3, i) => { let _ = i; GE7::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_GE7() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE7", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 128, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(56)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bytes_after: Some(l(0)), ..FieldD::new("field_0", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(1)), ..FieldD::new("g1", Ty::Bool) }, FieldD { bits: Some(l(128)), pad_bits_after: Some(l(1)), ..FieldD::new("g2", Ty::Int { w: 128, s: false }) }, FieldD { lim: Lim::Count(l(1)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(15)), ..FieldD::new("g4", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V2", id: Some(Val::N(23)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bytes_before: Some(l(2)), lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 128, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(1)), ..FieldD::new("g2", Ty::Bool) }, FieldD { lim: Lim::Count(b(Bop::Rem, X::BitOff, l(3))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::NonZero { w: 64, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(5)), assert_eq: Some(l(3)), hint: Hint::Range(3, 3), ..FieldD::new("g4", Ty::Int { w: 8, s: true }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(7, 29)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 128, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, l(1), l(0xffffffffffffffff))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, l(1), l(0xffffffffffffffff)))), hint: Hint::Range(1, 1), ..FieldD::new("g1", Ty::Int { w: 64, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), pad_bits_before: Some(l(1)), ..FieldD::new("g2", Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)) }, FieldD { lim: Lim::Count(l(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Float { w: 32 }))) }, FieldD { bits: Some(l(1)), pad_bytes_before: Some(l(0)), assert: Some(b(Bop::Lt, X::F(4), l(2))), hint: Hint::Range(0, 1), ..FieldD::new("g4", Ty::Int { w: 32, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(seek_from_current = "1")]
pub struct GS8 {
    #[deku(count = "2", assert = "((f0.len() as i128) < 5)", seek_from_current = "0")]
    pub f0: Vec<u16>,
    pub f1: u8,
}
impl Conv for GS8 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS8 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_GS8() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS8", kind: Kind::Struct { fields: vec![FieldD { assert: Some(b(Bop::Lt, X::Len(0), l(5))), lim: Lim::Count(l(2)), seek: Some(SeekSpec::Current(l(0))), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }], seek: Some(SeekSpec::Current(l(1))) }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb", id_type = "i8", bits = 5)]
pub enum GE9 {
    #[deku(id = 5)]
    V0 { #[deku(pad_bits_before = "3", pad_bits_after = "6", until = "|v: &u8| ((*v as i128) == 0)", cond = "(3 >= 1)")] g0: Vec<u8> },
}
impl Conv for GE9 {
    fn tv(&self) -> Val { match self { GE9::V0 { g0 } => Val::Var(0, vec![g0.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE9::V0 { g0: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_GE9() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE9", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: Some(5), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(5)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bits_before: Some(l(3)), pad_bits_after: Some(l(6)), cond: Some(b(Bop::Ge, l(3), l(1))), lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct GS10 {
    #[deku(update = "((self.f2.len() as i128) & 15)", reader = "custom::rd_xor(deku::reader)", writer = "custom::wr_xor(deku::writer, f0)")]
    pub f0: u8,
    #[deku(bits = "1")]
    pub f1: bool,
    #[deku(until = "|v: &u8| ((*v as i128) == 0)")]
    pub f2: Vec<u8>,
    pub f3: std::num::NonZeroU8,
    #[deku(until = "|v: &u8| ((*v as i128) == 0)")]
    pub f4: Vec<u8>,
}
impl Conv for GS10 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS10 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_GS10() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS10", kind: Kind::Struct { fields: vec![FieldD { update: Some(b(Bop::And, X::Len(2), l(15))), reader: Some(custom::m_rd_xor), writer: Some(custom::m_wr_xor), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(1)), ..FieldD::new("f1", Ty::Bool) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("f3", Ty::NonZero { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct GS11 {
    pub f0: i128,
    #[deku(count = "2", assert = "((f1.len() as i128) < 9)")]
    pub f1: Box<[u16]>,
    pub f2: bool,
    #[deku(count = "((deku::byte_offset as i128) % 4)")]
    pub f3: Vec<(u8, u8,)>,
}
impl Conv for GS11 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS11 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_GS11() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS11", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 128, s: true }) }, FieldD { assert: Some(b(Bop::Lt, X::Len(1), l(9))), lim: Lim::Count(l(2)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("f2", Ty::Bool) }, FieldD { lim: Lim::Count(b(Bop::Rem, X::ByteOff, l(4))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct GS12 {
    #[deku(bits = 15, pad_bytes_after = "2")]
    pub f0: u32,
    #[deku(temp, temp_value = "((f2.len() as i128)) as u16")]
    pub f1: u16,
    #[deku(bits = "13", count = "f1")]
    pub f2: Vec<u16>,
    #[deku(bits = "16", count = "((*f0 as i128) % 4)", assert = "((f3.len() as i128) < 9)")]
    pub f3: Box<[[u32; 2]]>,
}
impl Conv for GS12 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS12 { f0: Conv::fv(&i[0]), f2: Conv::fv(&i[1]), f3: Conv::fv(&i[2]) } }
}
pub fn d_GS12() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS12", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(15)), pad_bytes_after: Some(l(2)), ..FieldD::new("f0", Ty::Int { w: 32, s: false }) }, FieldD { temp_value: Some(b(Bop::And, X::Len(2), l(0xffff))), temp: true, hint: Hint::Range(0, 6), ..FieldD::new("f1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(13)), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(16)), assert: Some(b(Bop::Lt, X::Len(3), l(9))), lim: Lim::Count(b(Bop::Rem, X::F(0), l(4))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct GS13 {
    #[deku(reader = "custom::rd_xor(deku::reader)", writer = "custom::wr_xor(deku::writer, f0)")]
    pub f0: u8,
    #[deku(until = "|v: &u8| ((*v as i128) < 100)", assert = "((f1.len() as i128) < 5)")]
    pub f1: Vec<u8>,
}
impl Conv for GS13 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS13 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_GS13() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS13", kind: Kind::Struct { fields: vec![FieldD { reader: Some(custom::m_rd_xor), writer: Some(custom::m_wr_xor), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Lt, X::Len(1), l(5))), lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order, k: u8")]
pub struct GI15 {
    #[deku(bits = "1", count = "0")]
    pub f0: Vec<bool>,
    #[deku(pad_bits_after = "3", until = "|v: &u8| ((*v as i128) == 0)")]
    pub f1: Vec<u8>,
    #[deku(endian = "big", bit_order = "msb")]
    pub f2: u8,
}
impl Conv for GI15 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GI15 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_GI15() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI15", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(1)), lim: Lim::Count(l(0)), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { pad_bits_after: Some(l(3)), lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), hint: Hint::Range(0, 3), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb", id_type = "u128", bits = 11)]
pub enum GE14 {
    #[deku(id = "28")]
    V0 { #[deku(endian = "big")] g0: u32, #[deku(bytes = "16", pad_bits_after = "((*g0 as i128) % 2)")] g1: i128, #[deku(ctx = "(((*g0 as i128) % 4)) as u8")] g2: GI15 },
    #[deku(id = 55)]
    V1 { g0: f64, #[deku(bits = 15, pad_bytes_after = "0", update = "5")] g1: u16, #[deku(assert = "((*g2 as i128) < 32)")] g2: i32, #[deku(bytes_read = "(0 * 2)")] g3: Vec<i16> },
    #[deku(id = "60", default)]
    D { #[deku(pad_bytes_after = "2")] g0: (i32, i32,), #[deku(pad_bytes_after = "3", reader = "custom::rd_five(deku::reader)", writer = "custom::wr_five(deku::writer, *g1)")] g1: u8, #[deku(bytes_read = "(((*g1 as i128) % 3) * 17)", pad_bits_after = "((*g1 as i128) % 4)")] g2: Vec<(u128, u8,)>, #[deku(bits = "16", pad_bits_after = "((*g1 as i128) % 5)")] g3: std::num::NonZeroI16 },
}
impl Conv for GE14 {
    fn tv(&self) -> Val { match self { GE14::V0 { g0, g1, g2 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv()]), GE14::V1 { g0, g1, g2, g3 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), GE14::D { g0, g1, g2, g3 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE14::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(1, i) => { let _ = i; GE14::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(2, i) => { let _ = i; GE14::D { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_GE14() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE14", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 128, s: false }, endian: None, order: None, bits: Some(11), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(28)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(16)), pad_bits_after: Some(b(Bop::Rem, X::F(0), l(2))), ..FieldD::new("g1", Ty::Int { w: 128, s: true }) }, FieldD { ctx: vec![b(Bop::And, b(Bop::Rem, X::F(0), l(4)), l(0xff))], ..FieldD::new("g2", Ty::Named(d_GI15)) }] }, VariantD { name: "V1", id: Some(Val::N(55)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Float { w: 64 }) }, FieldD { bits: Some(l(15)), pad_bytes_after: Some(l(0)), update: Some(l(5)), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { assert: Some(b(Bop::Lt, X::F(2), l(32))), hint: Hint::Range(0, 31), ..FieldD::new("g2", Ty::Int { w: 32, s: true }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, l(0), l(2))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }] }, VariantD { name: "D", id: Some(Val::N(60)), explicit_id: true, pat: None, default: true, fields: vec![FieldD { pad_bytes_after: Some(l(2)), ..FieldD::new("g0", Ty::Tup(vec![Ty::Int { w: 32, s: true }, Ty::Int { w: 32, s: true }])) }, FieldD { pad_bytes_after: Some(l(3)), reader: Some(custom::m_rd_five), writer: Some(custom::m_wr_five), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(b(Bop::Rem, X::F(1), l(4))), lim: Lim::Bytes(b(Bop::Mul, b(Bop::Rem, X::F(1), l(3)), l(17))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 128, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(16)), pad_bits_after: Some(b(Bop::Rem, X::F(1), l(5))), ..FieldD::new("g3", Ty::NonZero { w: 16, s: true }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct GS16 {
    #[deku(bits = "10", cond = "(1 < 2)", default = "(1) as isize", magic = b"\xf0")]
    pub f0: isize,
    #[deku(endian = "little", map = "custom::map_even")]
    pub f1: u16,
    #[deku(endian = "little", bits = "4", skip, default = "(2) as u8")]
    pub f2: u8,
    #[deku(bits = "64", read_all)]
    pub f3: Vec<isize>,
}
impl Conv for GS16 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS16 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_GS16() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS16", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(10)), cond: Some(b(Bop::Lt, l(1), l(2))), default: Some(Default_::Int(l(1))), magic: Some(b"\xf0"), ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), map: Some((Ty::Int { w: 16, s: false }, custom::m_map_even)), ..FieldD::new("f1", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(4)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xff)))), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(64)), lim: Lim::All, ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order, k: u8")]
pub struct GI18 {
    #[deku(until = "|v: &u8| ((*v as i128) < 100)")]
    pub f0: Vec<u8>,
    #[deku(pad_bytes_before = "3", until = "|v: &u8| ((*v as i128) < 100)", assert = "((f1.len() as i128) < 8)")]
    pub f1: Vec<u8>,
    #[deku(bits = 6, skip(read), default = "(((k as i128) % 4)) as i128")]
    pub f2: i128,
    #[deku(bits = "7", bits_read = "(((k as i128) % 4) * 7)", pad_bits_after = "1", magic = b"\xd9\xd8")]
    pub f3: Vec<i8>,
    #[deku(endian = "big", bit_order = "msb", pad_bits_before = "((k as i128) % 4)")]
    pub f4: f32,
}
impl Conv for GI18 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GI18 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_GI18() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI18", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { pad_bytes_before: Some(l(3)), assert: Some(b(Bop::Lt, X::Len(1), l(8))), lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(6)), skip: Skip::Read, default: Some(Default_::Int(b(Bop::Rem, X::C(2), l(4)))), ..FieldD::new("f2", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(7)), pad_bits_after: Some(l(1)), lim: Lim::Bits(b(Bop::Mul, b(Bop::Rem, X::C(2), l(4)), l(7))), magic: Some(b"\xd9\xd8"), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), pad_bits_before: Some(b(Bop::Rem, X::C(2), l(4))), ..FieldD::new("f4", Ty::Float { w: 32 }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb", id_type = "u8")]
pub enum GE17 {
    #[deku(id = "19")]
    V0 { #[deku(bits = 2, count = "((deku::bit_offset as i128) % 3)", pad_bytes_before = "2", magic = b"\x18\x51\x1e")] g0: Box<[bool]>, #[deku(endian = "little")] g1: i64, #[deku(bits = "1", count = "0")] g2: Vec<i16> },
    #[deku(id_pat = "36 | 54..=55")]
    P { g0: u8, #[deku(map = "custom::map_double")] g1: u16, g2: isize, g3: isize, #[deku(pad_bytes_after = "3", ctx = "(3) as u8")] g4: GI18, #[deku(endian = "little", bits = 2, pad_bits_after = "2")] g5: Box<u8> },
    #[deku(id = "16")]
    V1,
}
impl Conv for GE17 {
    fn tv(&self) -> Val { match self { GE17::V0 { g0, g1, g2 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv()]), GE17::P { g0, g1, g2, g3, g4, g5 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), GE17::V1 => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE17::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(1, i) => { let _ = i; GE17::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(2, i) => { let _ = i; GE17::V1 }, _ => panic!("shape") } }
}
pub fn d_GE17() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE17", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(19)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(2)), pad_bytes_before: Some(l(2)), lim: Lim::Count(b(Bop::Rem, X::BitOff, l(3))), magic: Some(b"\x18\x51\x1e"), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("g1", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(1)), lim: Lim::Count(l(0)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(36, 36), (54, 55)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { map: Some((Ty::Int { w: 8, s: false }, custom::m_map_double)), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 64, s: true }) }, FieldD { pad_bytes_after: Some(l(3)), ctx: vec![b(Bop::And, l(3), l(0xff))], ..FieldD::new("g4", Ty::Named(d_GI18)) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(2)), pad_bits_after: Some(l(2)), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(16)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct GI20 {
    #[deku(bits = 5, map = "custom::map_same")]
    pub f0: u8,
    #[deku(temp, temp_value = "((f2.len() as i128)) as u32", pad_bytes_after = "2")]
    pub f1: u32,
    #[deku(bytes = 2, count = "f1")]
    pub f2: Box<[u16]>,
}
impl Conv for GI20 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GI20 { f0: Conv::fv(&i[0]), f2: Conv::fv(&i[1]) } }
}
pub fn d_GI20() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI20", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), map: Some((Ty::Int { w: 8, s: false }, custom::m_map_same)), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(l(2)), temp_value: Some(b(Bop::And, X::Len(2), l(0xffffffff))), temp: true, hint: Hint::Range(0, 6), ..FieldD::new("f1", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(2)), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\x75\xe0\x44\xbf", endian = "little")]
pub struct GS19 {
    pub f0: GI20,
    pub f1: std::num::NonZeroI32,
    #[deku(bits = "10", count = "0")]
    pub f2: Box<[[u32; 2]]>,
    #[deku(bits = "13", assert_eq = "(5) as u32", magic = b"\x64\xae")]
    pub f3: u32,
    #[deku(until = "|v: &u8| ((*v as i128) < 100)", skip, cond = "(((*f3 as i128) % 3) == 1)", magic = b"\x55\xee")]
    pub f4: Vec<u8>,
}
impl Conv for GS19 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS19 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_GS19() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS19", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Named(d_GI20)) }, FieldD { ..FieldD::new("f1", Ty::NonZero { w: 32, s: true }) }, FieldD { bits: Some(l(10)), lim: Lim::Count(l(0)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)))) }, FieldD { bits: Some(l(13)), assert_eq: Some(b(Bop::And, l(5), l(0xffffffff))), magic: Some(b"\x64\xae"), hint: Hint::Range(5, 5), ..FieldD::new("f3", Ty::Int { w: 32, s: false }) }, FieldD { cond: Some(b(Bop::Eq, b(Bop::Rem, X::F(3), l(3)), l(1))), lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), skip: Skip::All, magic: Some(b"\x55\xee"), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: Some(b"\x75\xe0\x44\xbf"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct GS21 {
    #[deku(until = "|v: &u8| ((*v as i128) == 0)")]
    pub f0: Vec<u8>,
    pub f1: u8,
}
impl Conv for GS21 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS21 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_GS21() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS21", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(bit_order = "msb")]
pub struct GS22 (
    #[deku(bits = "2", pad_bytes_after = "3")]
    pub bool,
    pub isize,
);
impl Conv for GS22 {
    fn tv(&self) -> Val { Val::Rec(vec![self.0.tv(), self.1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS22( Conv::fv(&i[0]), Conv::fv(&i[1]) ) }
}
pub fn d_GS22() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS22", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(2)), pad_bytes_after: Some(l(3)), ..FieldD::new("field_0", Ty::Bool) }, FieldD { ..FieldD::new("field_1", Ty::Int { w: 64, s: true }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order, k: u8")]
pub struct GI24 {
    #[deku(count = "0")]
    pub f0: std::sync::Arc<[isize]>,
    #[deku(bits = 8, pad_bits_after = "1", pad_bytes_after = "3", update = "((self.f0.len() as i128) & 15)")]
    pub f1: u16,
}
impl Conv for GI24 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GI24 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_GI24() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI24", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Count(l(0)), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { bits: Some(l(8)), pad_bits_after: Some(l(1)), pad_bytes_after: Some(l(3)), update: Some(b(Bop::And, X::Len(0), l(15))), ..FieldD::new("f1", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order, k: u8")]
pub struct GI25 {
    #[deku(endian = "little", bit_order = "msb", pad_bits_after = "2", skip, cond = "(((k as i128) % 4) < 2)", default = "(2) as i128", assert_eq = "(4) as i128")]
    pub f0: i128,
    #[deku(temp, temp_value = "((f2.len() as i128)) as u8", pad_bits_before = "2", magic = b"\x6d")]
    pub f1: u8,
    #[deku(count = "f1")]
    pub f2: Vec<u64>,
}
impl Conv for GI25 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GI25 { f0: Conv::fv(&i[0]), f2: Conv::fv(&i[1]) } }
}
pub fn d_GI25() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI25", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), pad_bits_after: Some(l(2)), cond: Some(b(Bop::Lt, b(Bop::Rem, X::C(2), l(4)), l(2))), assert_eq: Some(l(4)), skip: Skip::All, default: Some(Default_::Int(l(2))), hint: Hint::Range(4, 4), ..FieldD::new("f0", Ty::Int { w: 128, s: true }) }, FieldD { pad_bits_before: Some(l(2)), temp_value: Some(b(Bop::And, X::Len(2), l(0xff))), temp: true, magic: Some(b"\x6d"), hint: Hint::Range(0, 6), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb", id_type = "i32", bytes = 3)]
pub enum GE23 {
    #[deku(id = "24")]
    V0 { #[deku(assert = "((*g0 as i128) < 200)", reader = "custom::rd_five(deku::reader)", writer = "custom::wr_five(deku::writer, *g0)")] g0: u8, #[deku(pad_bits_before = "((*g0 as i128) % 4)")] g1: isize, #[deku(bits = 18, update = "(((*g0 as i128) & 15) + 95)")] g2: u32, #[deku(bytes = "1", pad_bytes_before = "((*g0 as i128) % 4)")] g3: u32 },
    #[deku(id_pat = "38 | 42..=46")]
    P { g0: i32, #[deku(cond = "(1 == 1)", default = "(2) as u8", assert = "((*g1 as i128) < 200)", reader = "custom::rd_five(deku::reader)", writer = "custom::wr_five(deku::writer, *g1)")] g1: u8, #[deku(bits = 5, update = "((*g2 as i128) & 5)")] g2: u32, #[deku(bits = 8)] g3: std::num::NonZeroI32, #[deku(ctx = "(((*g2 as i128) % 4)) as u8")] g4: GI25 },
    #[deku(id = "51")]
    V1 { #[deku(bytes = 2)] g0: i16, #[deku(endian = "little", bits = "31")] g1: i64, g2: i8, #[deku(pad_bytes_before = "3")] g3: u8 },
    #[deku(id = 6)]
    V2 { #[deku(bits = 27, bits_read = "(0 * 27)", assert = "((g0.len() as i128) < 9)")] g0: std::sync::Arc<[[u32; 2]]>, #[deku(assert_eq = "(5) as u32")] g1: u32, #[deku(bytes = "1", pad_bits_before = "((*g1 as i128) % 3)", cond = "(((*g1 as i128) % 5) <= 1)", default = "(2) as i16")] g2: i16, #[deku(bits = 8, pad_bits_before = "3", pad_bits_after = "5", skip, cond = "(3 <= 1)", default = "((((*g1 as i128) + 9) & 3)) as u8", map = "custom::map_same")] g3: u8, #[deku(pad_bits_before = "8", pad_bytes_after = "(((*g1 as i128) + 9) & 3)", ctx = "(((*g1 as i128) % 5)) as u8")] g4: GI24 },
    #[deku(id = "47")]
    V3(#[deku(bits = 6)] u8, #[deku(bits = "5")] u8, #[deku(bits = 6, bits_read = "(((*field_1 as i128) % 2) * 6)")] std::sync::Arc<[i16]>, #[deku(bits = "5", cond = "((((*field_0 as i128) + 3) & 3) == 1)", default = "(((*field_1 as i128) % 2)) as u32", assert = "((*field_3 as i128) <= 31)")] u32),
}
impl Conv for GE23 {
    fn tv(&self) -> Val { match self { GE23::V0 { g0, g1, g2, g3 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), GE23::P { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), GE23::V1 { g0, g1, g2, g3 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), GE23::V2 { g0, g1, g2, g3, g4 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), GE23::V3(field_0, field_1, field_2, field_3) => Val::Var(4, vec![field_0.tv(), field_1.tv(), field_2.tv(), field_3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE23::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(1, i) => { let _ = i; GE23::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(2, i) => { let _ = i; GE23::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(3, i) => { let _ = i; GE23::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(4, i) => { let _ = i; GE23::V3(Conv::fv(&i[0]), Conv::fv(&i[1]), Conv::fv(&i[2]), Conv::fv(&i[3])) }, _ => panic!("shape") } }
}
pub fn d_GE23() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE23", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: true }, endian: None, order: None, bits: None, bytes: Some(3) }, variants: vec![VariantD { name: "V0", id: Some(Val::N(24)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { assert: Some(b(Bop::Lt, X::F(0), l(200))), reader: Some(custom::m_rd_five), writer: Some(custom::m_wr_five), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Rem, X::F(0), l(4))), ..FieldD::new("g1", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(18)), update: Some(b(Bop::Add, b(Bop::And, X::F(0), l(15)), l(95))), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(1)), pad_bytes_before: Some(b(Bop::Rem, X::F(0), l(4))), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(38, 38), (42, 46)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: true }) }, FieldD { cond: Some(b(Bop::Eq, l(1), l(1))), assert: Some(b(Bop::Lt, X::F(1), l(200))), default: Some(Default_::Int(b(Bop::And, l(2), l(0xff)))), hint: Hint::Range(0, 3), reader: Some(custom::m_rd_five), writer: Some(custom::m_wr_five), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), update: Some(b(Bop::And, X::F(2), l(5))), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(8)), ..FieldD::new("g3", Ty::NonZero { w: 32, s: true }) }, FieldD { ctx: vec![b(Bop::And, b(Bop::Rem, X::F(2), l(4)), l(0xff))], ..FieldD::new("g4", Ty::Named(d_GI25)) }] }, VariantD { name: "V1", id: Some(Val::N(51)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bytes: Some(l(2)), ..FieldD::new("g0", Ty::Int { w: 16, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(31)), ..FieldD::new("g1", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 8, s: true }) }, FieldD { pad_bytes_before: Some(l(3)), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V2", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(27)), assert: Some(b(Bop::Lt, X::Len(0), l(9))), lim: Lim::Bits(b(Bop::Mul, l(0), l(27))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)))) }, FieldD { assert_eq: Some(b(Bop::And, l(5), l(0xffffffff))), hint: Hint::Range(5, 5), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(1)), pad_bits_before: Some(b(Bop::Rem, X::F(1), l(3))), cond: Some(b(Bop::Le, b(Bop::Rem, X::F(1), l(5)), l(1))), default: Some(Default_::Int(l(2))), ..FieldD::new("g2", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(8)), pad_bits_before: Some(l(3)), pad_bits_after: Some(l(5)), cond: Some(b(Bop::Le, l(3), l(1))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, b(Bop::And, b(Bop::Add, X::F(1), l(9)), l(3)), l(0xff)))), map: Some((Ty::Int { w: 8, s: false }, custom::m_map_same)), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(l(8)), pad_bytes_after: Some(b(Bop::And, b(Bop::Add, X::F(1), l(9)), l(3))), ctx: vec![b(Bop::And, b(Bop::Rem, X::F(1), l(5)), l(0xff))], ..FieldD::new("g4", Ty::Named(d_GI24)) }] }, VariantD { name: "V3", id: Some(Val::N(47)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(6)), hint: Hint::Range(0, 3), ..FieldD::new("field_0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), ..FieldD::new("field_1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(6)), lim: Lim::Bits(b(Bop::Mul, b(Bop::Rem, X::F(1), l(2)), l(6))), ..FieldD::new("field_2", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }, FieldD { bits: Some(l(5)), cond: Some(b(Bop::Eq, b(Bop::And, b(Bop::Add, X::F(0), l(3)), l(3)), l(1))), assert: Some(b(Bop::Le, X::F(3), l(31))), default: Some(Default_::Int(b(Bop::And, b(Bop::Rem, X::F(1), l(2)), l(0xffffffff)))), hint: Hint::Range(0, 31), ..FieldD::new("field_3", Ty::Int { w: 32, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct GI27 {
    pub f0: u8,
    #[deku(endian = "big", bits = 2, pad_bytes_before = "3")]
    pub f1: [u8; 2],
    #[deku(bits = 63, cond = "(((((*f0 as i128) + 8) & 3) == 1) || (((*f0 as i128) % 4) >= 1))", default = "((((*f0 as i128) + 1) & 3)) as u64")]
    pub f2: u64,
}
impl Conv for GI27 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GI27 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_GI27() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI27", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(2)), pad_bytes_before: Some(l(3)), ..FieldD::new("f1", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)) }, FieldD { bits: Some(l(63)), cond: Some(b(Bop::LOr, b(Bop::Eq, b(Bop::And, b(Bop::Add, X::F(0), l(8)), l(3)), l(1)), b(Bop::Ge, b(Bop::Rem, X::F(0), l(4)), l(1)))), default: Some(Default_::Int(b(Bop::And, b(Bop::And, b(Bop::Add, X::F(0), l(1)), l(3)), l(0xffffffffffffffff)))), hint: Hint::Range(0, 3), ..FieldD::new("f2", Ty::Int { w: 64, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(magic = b"\xe9\x51\xd7", endian = "big")]
pub struct GS26 {
    #[deku(pad_bits_after = "3", pad_bytes_after = "0")]
    pub f0: GI27,
    #[deku(bits = "1")]
    pub f1: bool,
    #[deku(temp, temp_value = "((f3.len() as i128)) as u32", magic = b"\x71")]
    pub f2: u32,
    #[deku(bits = 44, count = "f2", pad_bits_after = "2", pad_bytes_after = "3")]
    pub f3: Vec<[isize; 2]>,
}
impl Conv for GS26 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS26 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f3: Conv::fv(&i[2]) } }
}
pub fn d_GS26() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS26", kind: Kind::Struct { fields: vec![FieldD { pad_bits_after: Some(l(3)), pad_bytes_after: Some(l(0)), ..FieldD::new("f0", Ty::Named(d_GI27)) }, FieldD { bits: Some(l(1)), ..FieldD::new("f1", Ty::Bool) }, FieldD { temp_value: Some(b(Bop::And, X::Len(3), l(0xffffffff))), temp: true, magic: Some(b"\x71"), hint: Hint::Range(0, 6), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(44)), pad_bits_after: Some(l(2)), pad_bytes_after: Some(l(3)), lim: Lim::Count(X::F(2)), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: Some(b"\xe9\x51\xd7"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "msb", id_type = "u32")]
pub enum GE28 {
    #[deku(id = "55")]
    V0 { #[deku(bits = "28", pad_bytes_before = "1")] g0: i32, #[deku(bytes = 3)] g1: i64 },
}
impl Conv for GE28 {
    fn tv(&self) -> Val { match self { GE28::V0 { g0, g1 } => Val::Var(0, vec![g0.tv(), g1.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE28::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_GE28() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE28", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(55)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(28)), pad_bytes_before: Some(l(1)), ..FieldD::new("g0", Ty::Int { w: 32, s: true }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("g1", Ty::Int { w: 64, s: true }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u8")]
pub enum GI30 {
    #[deku(id = "0")]
    V0 { #[deku(bits = 33)] g0: (i128, i128,), #[deku(update = "7")] g1: u8, #[deku(bits = 8, map = "custom::map_same")] g2: u8, g3: bool, #[deku(pad_bytes_after = "((*g1 as i128) % 2)", until = "|v: &u8| ((*v as i128) == 0)", skip(write), cond = "(3 == 1)")] g4: Vec<u8> },
    #[deku(id = 1)]
    V1 { #[deku(pad_bits_after = "4")] g0: u64, #[deku(bits = 41, pad_bits_after = "((*g0 as i128) % 3)")] g1: isize },
    #[deku(id = "9", default)]
    D,
}
impl Conv for GI30 {
    fn tv(&self) -> Val { match self { GI30::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), GI30::V1 { g0, g1 } => Val::Var(1, vec![g0.tv(), g1.tv()]), GI30::D => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GI30::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(1, i) => { let _ = i; GI30::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(2, i) => { let _ = i; GI30::D }, _ => panic!("shape") } }
}
pub fn d_GI30() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI30", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(33)), ..FieldD::new("g0", Ty::Tup(vec![Ty::Int { w: 128, s: true }, Ty::Int { w: 128, s: true }])) }, FieldD { update: Some(l(7)), hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), map: Some((Ty::Int { w: 8, s: false }, custom::m_map_same)), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g3", Ty::Bool) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(2))), cond: Some(b(Bop::Eq, l(3), l(1))), lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), skip: Skip::Write, ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "V1", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bits_after: Some(l(4)), ..FieldD::new("g0", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(41)), pad_bits_after: Some(b(Bop::Rem, X::F(0), l(3))), ..FieldD::new("g1", Ty::Int { w: 64, s: true }) }] }, VariantD { name: "D", id: Some(Val::N(9)), explicit_id: true, pat: None, default: true, fields: vec![] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\x6b\x9d\x19\xcc", endian = "little", seek_rewind)]
pub struct GS29 {
    #[deku(bits = 3, pad_bits_before = "1", pad_bytes_before = "1", assert = "((*f0 as i128) <= 3)")]
    pub f0: i16,
    #[deku(pad_bits_before = "2", seek_from_current = "1")]
    pub f1: [GI30; 2],
    #[deku(update = "(((self.f2 as i128) & 15) + 49)", reader = "custom::rd_five(deku::reader)", writer = "custom::wr_five(deku::writer, *f2)")]
    pub f2: u8,
    #[deku(seek_from_current = "-1")]
    pub f3: i64,
    pub f4: u8,
}
impl Conv for GS29 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS29 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_GS29() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS29", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), pad_bits_before: Some(l(1)), pad_bytes_before: Some(l(1)), assert: Some(b(Bop::Le, X::F(0), l(3))), hint: Hint::Range(0, 3), ..FieldD::new("f0", Ty::Int { w: 16, s: true }) }, FieldD { pad_bits_before: Some(l(2)), seek: Some(SeekSpec::Current(l(1))), ..FieldD::new("f1", Ty::Arr(Box::new(Ty::Named(d_GI30)), 2)) }, FieldD { update: Some(b(Bop::Add, b(Bop::And, X::F(2), l(15)), l(49))), hint: Hint::Range(0, 3), reader: Some(custom::m_rd_five), writer: Some(custom::m_wr_five), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(l(-1))), ..FieldD::new("f3", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: Some(SeekSpec::Rewind) }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: Some(b"\x6b\x9d\x19\xcc"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "msb")]
pub struct GS31 {
    #[deku(skip(read), cond = "(1 <= 1)", default = "(0) as u8", assert = "(((*f0 as i128) <= 44) && ((*f0 as i128) >= 0))")]
    pub f0: u8,
    pub f1: [u32; 2],
    #[deku(bytes = "1", update = "6")]
    pub f2: u16,
    #[deku(update = "(((self.f2 as i128) & 15) + 2)")]
    pub f3: usize,
    #[deku(pad_bits_after = "6", until = "|v: &u8| ((*v as i128) < 100)", skip, cond = "(2 == 1)")]
    pub f4: Vec<u8>,
}
impl Conv for GS31 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS31 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_GS31() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS31", kind: Kind::Struct { fields: vec![FieldD { cond: Some(b(Bop::Le, l(1), l(1))), assert: Some(b(Bop::LAnd, b(Bop::Le, X::F(0), l(44)), b(Bop::Ge, X::F(0), l(0)))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, l(0), l(0xff)))), hint: Hint::Range(0, 44), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bytes: Some(l(1)), update: Some(l(6)), hint: Hint::Range(0, 3), ..FieldD::new("f2", Ty::Int { w: 16, s: false }) }, FieldD { update: Some(b(Bop::Add, b(Bop::And, X::F(2), l(15)), l(2))), ..FieldD::new("f3", Ty::Int { w: 64, s: false }) }, FieldD { pad_bits_after: Some(l(6)), cond: Some(b(Bop::Eq, l(2), l(1))), lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), skip: Skip::All, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct GS32 {
    pub f0: Box<u8>,
    #[deku(until = "|v: &u8| ((*v as i128) < 100)")]
    pub f1: Vec<u8>,
    #[deku(bits = "4", count = "0")]
    pub f2: Box<[i8]>,
    #[deku(bits = "13", read_all)]
    pub f3: Vec<u32>,
}
impl Conv for GS32 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS32 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_GS32() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS32", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(4)), lim: Lim::Count(l(0)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(13)), lim: Lim::All, ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "i16")]
pub enum GE33 {
    #[deku(id = "20")]
    V0,
    #[deku(id = 60)]
    V1 { #[deku(bits = "4", cond = "(0 == 1)", default = "(2) as i16")] g0: i16, #[deku(bytes = "1", pad_bits_after = "3", skip, cond = "(3 <= 1)", default = "(0) as i16", assert = "((*g1 as i128) < 54)")] g1: i16, #[deku(bits = "4", count = "1", assert = "((g2.len() as i128) < 6)")] g2: std::sync::Arc<[(i16, u8,)]>, #[deku(until = "|v: &u8| ((*v as i128) == 0)")] g3: Vec<u8>, #[deku(skip(read), default = "(2) as u8", assert = "((*g4 as i128) < 200)", reader = "custom::rd_xor(deku::reader)", writer = "custom::wr_xor(deku::writer, g4)")] g4: u8 },
}
impl Conv for GE33 {
    fn tv(&self) -> Val { match self { GE33::V0 => Val::Var(0, vec![]), GE33::V1 { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE33::V0 }, Val::Var(1, i) => { let _ = i; GE33::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_GE33() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE33", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(20)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V1", id: Some(Val::N(60)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), cond: Some(b(Bop::Eq, l(0), l(1))), default: Some(Default_::Int(l(2))), ..FieldD::new("g0", Ty::Int { w: 16, s: true }) }, FieldD { bytes: Some(l(1)), pad_bits_after: Some(l(3)), cond: Some(b(Bop::Le, l(3), l(1))), assert: Some(b(Bop::Lt, X::F(1), l(54))), skip: Skip::All, default: Some(Default_::Int(l(0))), hint: Hint::Range(0, 53), ..FieldD::new("g1", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(4)), assert: Some(b(Bop::Lt, X::Len(2), l(6))), lim: Lim::Count(l(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 16, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { assert: Some(b(Bop::Lt, X::F(4), l(200))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, l(2), l(0xff)))), reader: Some(custom::m_rd_xor), writer: Some(custom::m_wr_xor), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct GI35 {
    #[deku(pad_bits_after = "4", until = "|v: &u8| ((*v as i128) < 100)")]
    pub f0: Vec<u8>,
    pub f1: u8,
}
impl Conv for GI35 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GI35 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_GI35() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI35", kind: Kind::Struct { fields: vec![FieldD { pad_bits_after: Some(l(4)), lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(ctx = "k: u8")]
pub struct GI36 {
    #[deku(endian = "big", bits = "58")]
    pub f0: u128,
    #[deku(temp, temp_value = "((f2.len() as i128)) as u32")]
    pub f1: u32,
    #[deku(bits = "4", count = "f1", pad_bits_before = "5")]
    pub f2: std::sync::Arc<[i32]>,
    #[deku(endian = "little", bits = "1")]
    pub f3: u16,
    #[deku(skip(write), default = "(((k as i128) % 4)) as u16", map = "custom::map_double")]
    pub f4: u16,
    #[deku(temp, temp_value = "((f6.len() as i128)) as u8", bits = "4")]
    pub f5: u8,
    #[deku(count = "f5", magic = b"\xb6")]
    pub f6: std::sync::Arc<[f32]>,
}
impl Conv for GI36 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GI36 { f0: Conv::fv(&i[0]), f2: Conv::fv(&i[1]), f3: Conv::fv(&i[2]), f4: Conv::fv(&i[3]), f6: Conv::fv(&i[4]) } }
}
pub fn d_GI36() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI36", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(58)), ..FieldD::new("f0", Ty::Int { w: 128, s: false }) }, FieldD { temp_value: Some(b(Bop::And, X::Len(2), l(0xffffffff))), temp: true, hint: Hint::Range(0, 6), ..FieldD::new("f1", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(4)), pad_bits_before: Some(l(5)), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 32, s: true }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(1)), hint: Hint::Range(0, 3), ..FieldD::new("f3", Ty::Int { w: 16, s: false }) }, FieldD { skip: Skip::Write, default: Some(Default_::Int(b(Bop::And, b(Bop::Rem, X::C(0), l(4)), l(0xffff)))), map: Some((Ty::Int { w: 8, s: false }, custom::m_map_double)), ..FieldD::new("f4", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(4)), temp_value: Some(b(Bop::And, X::Len(6), l(0xff))), temp: true, hint: Hint::Range(0, 6), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(5)), magic: Some(b"\xb6"), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Float { w: 32 }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct GI37 {
    #[deku(temp, temp_value = "((f1.len() as i128)) as u16", magic = b"\xf2")]
    pub f0: u16,
    #[deku(count = "f0", pad_bytes_after = "2", skip(read), cond = "(1 != 0)")]
    pub f1: Box<[[u16; 2]]>,
    #[deku(bits_read = "(0 * 8)", pad_bits_before = "1")]
    pub f2: Vec<u8>,
    #[deku(pad_bytes_after = "2")]
    pub f3: u32,
    pub f4: i64,
}
impl Conv for GI37 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GI37 { f1: Conv::fv(&i[0]), f2: Conv::fv(&i[1]), f3: Conv::fv(&i[2]), f4: Conv::fv(&i[3]) } }
}
pub fn d_GI37() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI37", kind: Kind::Struct { fields: vec![FieldD { temp_value: Some(b(Bop::And, X::Len(1), l(0xffff))), temp: true, magic: Some(b"\xf2"), hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { pad_bytes_after: Some(l(2)), cond: Some(b(Bop::Ne, l(1), l(0))), lim: Lim::Count(X::F(0)), skip: Skip::Read, ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)))) }, FieldD { pad_bits_before: Some(l(1)), lim: Lim::Bits(b(Bop::Mul, l(0), l(8))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { pad_bytes_after: Some(l(2)), hint: Hint::Range(0, 3), ..FieldD::new("f3", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 64, s: true }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "u64", bytes = 8)]
pub enum GE34 {
    #[deku(id_pat = "58 | 59..=60")]
    P { g0: u64, #[deku(bits = "4")] g1: u8, #[deku(pad_bytes_after = "((*g1 as i128) % 3)")] g2: [u32; 2], g3: [GI37; 2] },
    #[deku(id = 44)]
    V0,
    #[deku(id = "34")]
    V1 { #[deku(magic = b"\xff")] g0: u32, g1: u64 },
    #[deku(id = 22)]
    V2 { #[deku(endian = "little")] g0: (isize, isize,), g1: GI35, #[deku(cond = "(3 < 2)", default = "(3) as u16", map = "custom::map_double")] g2: u16 },
    #[deku(id = "10")]
    V3 { #[deku(endian = "big", bit_order = "lsb", bits = 9, assert = "((*g0 as i128) < 13)", magic = b"\xb6")] g0: u16, #[deku(endian = "little", bit_order = "lsb")] g1: (u16, u16,), #[deku(pad_bits_before = "((*g0 as i128) % 4)", ctx = "(((*g0 as i128) % 5)) as u8")] g2: GI36, #[deku(bits = "4")] g3: bool },
}
impl Conv for GE34 {
    fn tv(&self) -> Val { match self { GE34::P { g0, g1, g2, g3 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), GE34::V0 => Val::Var(1, vec![]), GE34::V1 { g0, g1 } => Val::Var(2, vec![g0.tv(), g1.tv()]), GE34::V2 { g0, g1, g2 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv()]), GE34::V3 { g0, g1, g2, g3 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE34::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(1, i) => { let _ = i; GE34::V0 }, Val::Var(2, i) => { let _ = i; GE34::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; GE34::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(4, i) => { let _ = i; GE34::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_GE34() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE34", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 64, s: false }, endian: None, order: None, bits: None, bytes: Some(8) }, variants: vec![VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(58, 58), (59, 60)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, X::F(1), l(3))), ..FieldD::new("g2", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { ..FieldD::new("g3", Ty::Arr(Box::new(Ty::Named(d_GI37)), 2)) }] }, VariantD { name: "V0", id: Some(Val::N(44)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V1", id: Some(Val::N(34)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { magic: Some(b"\xff"), hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "V2", id: Some(Val::N(22)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("g0", Ty::Tup(vec![Ty::Int { w: 64, s: true }, Ty::Int { w: 64, s: true }])) }, FieldD { ..FieldD::new("g1", Ty::Named(d_GI35)) }, FieldD { cond: Some(b(Bop::Lt, l(3), l(2))), default: Some(Default_::Int(b(Bop::And, l(3), l(0xffff)))), map: Some((Ty::Int { w: 8, s: false }, custom::m_map_double)), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V3", id: Some(Val::N(10)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(9)), assert: Some(b(Bop::Lt, X::F(0), l(13))), magic: Some(b"\xb6"), hint: Hint::Range(0, 12), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("g1", Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Int { w: 16, s: false }])) }, FieldD { pad_bits_before: Some(b(Bop::Rem, X::F(0), l(4))), ctx: vec![b(Bop::And, b(Bop::Rem, X::F(0), l(5)), l(0xff))], ..FieldD::new("g2", Ty::Named(d_GI36)) }, FieldD { bits: Some(l(4)), ..FieldD::new("g3", Ty::Bool) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\xb6", endian = "big", bit_order = "msb")]
pub struct GS38 {
    #[deku(bits = 41, pad_bits_before = "7", skip, cond = "(0 == 1)", default = "(0) as i64", seek_from_start = "6")]
    pub f0: i64,
    #[deku(pad_bytes_after = "3", until = "|v: &u8| ((*v as i128) < 100)")]
    pub f1: Vec<u8>,
    #[deku(pad_bits_after = "3", cond = "((2 < 2) && (3 >= 1))", magic = b"\xd6\x25\x19", reader = "custom::rd_xor(deku::reader)", writer = "custom::wr_xor(deku::writer, f2)")]
    pub f2: u8,
    #[deku(seek_from_start = "6")]
    pub f3: u128,
    #[deku(pad_bits_before = "(((*f2 as i128) + 6) & 3)", pad_bits_after = "((*f2 as i128) % 2)", skip, cond = "(((*f2 as i128) % 5) == 1)", default = "(3) as u16", seek_from_current = "2", map = "custom::map_double")]
    pub f4: u16,
    pub f5: u8,
}
impl Conv for GS38 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS38 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_GS38() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS38", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(41)), pad_bits_before: Some(l(7)), cond: Some(b(Bop::Eq, l(0), l(1))), skip: Skip::All, default: Some(Default_::Int(l(0))), seek: Some(SeekSpec::Start(l(6))), ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }, FieldD { pad_bytes_after: Some(l(3)), lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::LAnd, b(Bop::Lt, l(2), l(2)), b(Bop::Ge, l(3), l(1)))), magic: Some(b"\xd6\x25\x19"), hint: Hint::Range(0, 3), reader: Some(custom::m_rd_xor), writer: Some(custom::m_wr_xor), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(6))), ..FieldD::new("f3", Ty::Int { w: 128, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::And, b(Bop::Add, X::F(2), l(6)), l(3))), pad_bits_after: Some(b(Bop::Rem, X::F(2), l(2))), cond: Some(b(Bop::Eq, b(Bop::Rem, X::F(2), l(5)), l(1))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(3), l(0xffff)))), seek: Some(SeekSpec::Current(l(2))), map: Some((Ty::Int { w: 8, s: false }, custom::m_map_double)), ..FieldD::new("f4", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: Some(b"\xb6"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(magic = b"\x65", endian = "big")]
pub struct GS39 {
    #[deku(endian = "little", pad_bits_before = "3", cond = "((3 >= 1) || (3 >= 1))", default = "(3) as u16", assert = "((*f0 as i128) <= 12)")]
    pub f0: u16,
}
impl Conv for GS39 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS39 { f0: Conv::fv(&i[0]) } }
}
pub fn d_GS39() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS39", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), pad_bits_before: Some(l(3)), cond: Some(b(Bop::LOr, b(Bop::Ge, l(3), l(1)), b(Bop::Ge, l(3), l(1)))), assert: Some(b(Bop::Le, X::F(0), l(12))), default: Some(Default_::Int(b(Bop::And, l(3), l(0xffff)))), hint: Hint::Range(0, 12), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: Some(b"\x65"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(seek_rewind)]
pub struct GS40 {
    #[deku(endian = "big", bit_order = "msb", bits = 2, magic = b"\xa4", seek_from_start = "1")]
    pub f0: [u8; 2],
    #[deku(pad_bytes_after = "2", seek_from_start = "0")]
    pub f1: isize,
    pub f2: u8,
}
impl Conv for GS40 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS40 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_GS40() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS40", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(2)), magic: Some(b"\xa4"), seek: Some(SeekSpec::Start(l(1))), ..FieldD::new("f0", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)) }, FieldD { pad_bytes_after: Some(l(2)), seek: Some(SeekSpec::Start(l(0))), ..FieldD::new("f1", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }], seek: Some(SeekSpec::Rewind) }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct GS41 {
    #[deku(assert = "(((*f0 as i128) <= 38) && ((*f0 as i128) >= 0))")]
    pub f0: i64,
}
impl Conv for GS41 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS41 { f0: Conv::fv(&i[0]) } }
}
pub fn d_GS41() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS41", kind: Kind::Struct { fields: vec![FieldD { assert: Some(b(Bop::LAnd, b(Bop::Le, X::F(0), l(38)), b(Bop::Ge, X::F(0), l(0)))), hint: Hint::Range(0, 38), ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct GS42 {
    #[deku(pad_bytes_after = "1", reader = "custom::rd_five(deku::reader)", writer = "custom::wr_five(deku::writer, *f0)")]
    pub f0: u8,
    #[deku(count = "((*f0 as i128) % 3)")]
    pub f1: std::sync::Arc<[[i8; 2]]>,
    #[deku(pad_bits_before = "1")]
    pub f2: u16,
}
impl Conv for GS42 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS42 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_GS42() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS42", kind: Kind::Struct { fields: vec![FieldD { pad_bytes_after: Some(l(1)), hint: Hint::Range(0, 3), reader: Some(custom::m_rd_five), writer: Some(custom::m_wr_five), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Rem, X::F(0), l(3))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: true }), 2)))) }, FieldD { pad_bits_before: Some(l(1)), hint: Hint::Range(0, 3), ..FieldD::new("f2", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct GS43 {
    #[deku(pad_bits_before = "0", pad_bits_after = "2")]
    pub f0: bool,
    #[deku(bytes = "7", skip, cond = "(0 != 0)", default = "(1) as u64")]
    pub f1: u64,
}
impl Conv for GS43 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS43 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_GS43() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS43", kind: Kind::Struct { fields: vec![FieldD { pad_bits_before: Some(l(0)), pad_bits_after: Some(l(2)), ..FieldD::new("f0", Ty::Bool) }, FieldD { bytes: Some(l(7)), cond: Some(b(Bop::Ne, l(0), l(0))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(1), l(0xffffffffffffffff)))), ..FieldD::new("f1", Ty::Int { w: 64, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order, k: u8")]
pub struct GI45 {
    #[deku(skip)]
    pub f0: Box<u32>,
    #[deku(temp, temp_value = "((f2.len() as i128)) as u32", bits = "4", magic = b"\x7a")]
    pub f1: u32,
    #[deku(bits = 56, count = "f1", skip(read), cond = "((3 <= 1) && (((k as i128) % 4) >= 1))")]
    pub f2: Vec<(usize, u8,)>,
    #[deku(endian = "big", magic = b"\xef\x88")]
    pub f3: i16,
    pub f4: f64,
}
impl Conv for GI45 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GI45 { f0: Conv::fv(&i[0]), f2: Conv::fv(&i[1]), f3: Conv::fv(&i[2]), f4: Conv::fv(&i[3]) } }
}
pub fn d_GI45() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI45", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, ..FieldD::new("f0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(4)), temp_value: Some(b(Bop::And, X::Len(2), l(0xffffffff))), temp: true, magic: Some(b"\x7a"), hint: Hint::Range(0, 6), ..FieldD::new("f1", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(56)), cond: Some(b(Bop::LAnd, b(Bop::Le, l(3), l(1)), b(Bop::Ge, b(Bop::Rem, X::C(2), l(4)), l(1)))), lim: Lim::Count(X::F(1)), skip: Skip::Read, ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 64, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), magic: Some(b"\xef\x88"), ..FieldD::new("f3", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("f4", Ty::Float { w: 64 }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb", id_type = "i16", bytes = 1)]
pub enum GE44 {
    #[deku(id = "42")]
    V0 { #[deku(magic = b"\xb7\x1c\xe3", map = "custom::map_double")] g0: u16, #[deku(pad_bits_after = "7", ctx = "(2) as u8")] g1: GI45, #[deku(bits = "4")] g2: bool, #[deku(until = "|v: &u8| ((*v as i128) == 0)")] g3: Vec<u8>, g4: isize },
    #[deku(id = 31)]
    V1,
    #[deku(id = "25", default)]
    D { #[deku(bits = 8)] g0: std::num::NonZeroUsize, #[deku(bits = 5, count = "((deku::bit_offset as i128) % 3)", skip, cond = "(2 < 2)")] g1: Box<[u16]>, #[deku(bits = "13", update = "(((*g2 as i128) & 15) + 31)")] g2: u64 },
}
impl Conv for GE44 {
    fn tv(&self) -> Val { match self { GE44::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), GE44::V1 => Val::Var(1, vec![]), GE44::D { g0, g1, g2 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE44::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(1, i) => { let _ = i; GE44::V1 }, Val::Var(2, i) => { let _ = i; GE44::D { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_GE44() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE44", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: None, bytes: Some(1) }, variants: vec![VariantD { name: "V0", id: Some(Val::N(42)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { magic: Some(b"\xb7\x1c\xe3"), map: Some((Ty::Int { w: 8, s: false }, custom::m_map_double)), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { pad_bits_after: Some(l(7)), ctx: vec![b(Bop::And, l(2), l(0xff))], ..FieldD::new("g1", Ty::Named(d_GI45)) }, FieldD { bits: Some(l(4)), ..FieldD::new("g2", Ty::Bool) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("g4", Ty::Int { w: 64, s: true }) }] }, VariantD { name: "V1", id: Some(Val::N(31)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "D", id: Some(Val::N(25)), explicit_id: true, pat: None, default: true, fields: vec![FieldD { bits: Some(l(8)), ..FieldD::new("g0", Ty::NonZero { w: 64, s: false }) }, FieldD { bits: Some(l(5)), cond: Some(b(Bop::Lt, l(2), l(2))), lim: Lim::Count(b(Bop::Rem, X::BitOff, l(3))), skip: Skip::All, ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(13)), update: Some(b(Bop::Add, b(Bop::And, X::F(2), l(15)), l(31))), ..FieldD::new("g2", Ty::Int { w: 64, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct GS46 {
    #[deku(bits = 30)]
    pub f0: i32,
    #[deku(endian = "little", pad_bits_before = "0", magic = b"\x40")]
    pub f1: bool,
    #[deku(skip(read), default = "(0) as u16", map = "custom::map_double")]
    pub f2: u16,
    #[deku(pad_bits_after = "5", update = "(((self.f3 as i128) & 15) + 88)", reader = "custom::rd_xor(deku::reader)", writer = "custom::wr_xor(deku::writer, f3)")]
    pub f3: u8,
    #[deku(bits = "4", update = "0")]
    pub f4: u8,
    #[deku(bits = "1", read_all)]
    pub f5: Vec<bool>,
}
impl Conv for GS46 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS46 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_GS46() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS46", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(30)), ..FieldD::new("f0", Ty::Int { w: 32, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), pad_bits_before: Some(l(0)), magic: Some(b"\x40"), ..FieldD::new("f1", Ty::Bool) }, FieldD { skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, l(0), l(0xffff)))), map: Some((Ty::Int { w: 8, s: false }, custom::m_map_double)), ..FieldD::new("f2", Ty::Int { w: 16, s: false }) }, FieldD { pad_bits_after: Some(l(5)), update: Some(b(Bop::Add, b(Bop::And, X::F(3), l(15)), l(88))), reader: Some(custom::m_rd_xor), writer: Some(custom::m_wr_xor), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), update: Some(l(0)), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(1)), lim: Lim::All, ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Bool))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct GS47 (
    #[deku(magic = b"\x4e")]
    pub u8,
    #[deku(bits = 4)]
    pub i32,
    #[deku(assert_eq = "(2) as u16")]
    pub u16,
);
impl Conv for GS47 {
    fn tv(&self) -> Val { Val::Rec(vec![self.0.tv(), self.1.tv(), self.2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS47( Conv::fv(&i[0]), Conv::fv(&i[1]), Conv::fv(&i[2]) ) }
}
pub fn d_GS47() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS47", kind: Kind::Struct { fields: vec![FieldD { magic: Some(b"\x4e"), ..FieldD::new("field_0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("field_1", Ty::Int { w: 32, s: true }) }, FieldD { assert_eq: Some(b(Bop::And, l(2), l(0xffff))), hint: Hint::Range(2, 2), ..FieldD::new("field_2", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct GS48 {
    #[deku(skip(write))]
    pub f0: bool,
    #[deku(temp, temp_value = "((f2.len() as i128)) as u16", pad_bits_before = "2")]
    pub f1: u16,
    #[deku(count = "f1", assert = "((f2.len() as i128) < 4)")]
    pub f2: Box<[i8]>,
    #[deku(temp, temp_value = "((f4.len() as i128)) as u16")]
    pub f3: u16,
    #[deku(bits = 66, count = "f3", pad_bytes_before = "1", pad_bits_after = "1")]
    pub f4: Vec<u128>,
    #[deku(pad_bits_before = "3", until = "|v: &u8| ((*v as i128) == 0)")]
    pub f5: Vec<u8>,
    #[deku(read_all)]
    pub f6: Vec<u64>,
}
impl Conv for GS48 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f2.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS48 { f0: Conv::fv(&i[0]), f2: Conv::fv(&i[1]), f4: Conv::fv(&i[2]), f5: Conv::fv(&i[3]), f6: Conv::fv(&i[4]) } }
}
pub fn d_GS48() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS48", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::Write, ..FieldD::new("f0", Ty::Bool) }, FieldD { pad_bits_before: Some(l(2)), temp_value: Some(b(Bop::And, X::Len(2), l(0xffff))), temp: true, hint: Hint::Range(0, 6), ..FieldD::new("f1", Ty::Int { w: 16, s: false }) }, FieldD { assert: Some(b(Bop::Lt, X::Len(2), l(4))), lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { temp_value: Some(b(Bop::And, X::Len(4), l(0xffff))), temp: true, hint: Hint::Range(0, 6), ..FieldD::new("f3", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(66)), pad_bytes_before: Some(l(1)), pad_bits_after: Some(l(1)), lim: Lim::Count(X::F(3)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 128, s: false }))) }, FieldD { pad_bits_before: Some(l(3)), lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { lim: Lim::All, ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order, k: u8")]
pub struct GI50 {
    pub f0: i8,
}
impl Conv for GI50 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GI50 { f0: Conv::fv(&i[0]) } }
}
pub fn d_GI50() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI50", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 8, s: true }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct GS49 {
    #[deku(pad_bits_after = "7", ctx = "(1) as u8")]
    pub f0: GI50,
    pub f1: u8,
}
impl Conv for GS49 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS49 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_GS49() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS49", kind: Kind::Struct { fields: vec![FieldD { pad_bits_after: Some(l(7)), ctx: vec![b(Bop::And, l(1), l(0xff))], ..FieldD::new("f0", Ty::Named(d_GI50)) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "msb", id_type = "u128", bytes = 5)]
pub enum GE51 {
    #[deku(id = "40")]
    V0 { #[deku(endian = "little", bits = "7", pad_bits_after = "6")] g0: u8, #[deku(bits = "4", pad_bits_after = "1", map = "custom::map_same")] g1: u8, #[deku(bytes = 2, count = "((deku::bit_offset as i128) % 3)")] g2: Box<[(i16, u8,)]> },
    #[deku(id = 30)]
    V1 { #[deku(pad_bits_before = "2")] g0: i64 },
}
impl Conv for GE51 {
    fn tv(&self) -> Val { match self { GE51::V0 { g0, g1, g2 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv()]), GE51::V1 { g0 } => Val::Var(1, vec![g0.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE51::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(1, i) => { let _ = i; GE51::V1 { g0: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_GE51() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE51", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 128, s: false }, endian: None, order: None, bits: None, bytes: Some(5) }, variants: vec![VariantD { name: "V0", id: Some(Val::N(40)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(7)), pad_bits_after: Some(l(6)), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), pad_bits_after: Some(l(1)), map: Some((Ty::Int { w: 8, s: false }, custom::m_map_same)), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(2)), lim: Lim::Count(b(Bop::Rem, X::BitOff, l(3))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 16, s: true }, Ty::Int { w: 8, s: false }])))) }] }, VariantD { name: "V1", id: Some(Val::N(30)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bits_before: Some(l(2)), ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", id_type = "u8", bits = 6)]
pub enum GE52 {
    #[deku(id = "18")]
    V0 { #[deku(bits = 2)] g0: usize, #[deku(bits = 62)] g1: u64 },
    #[deku(id = 6)]
    V1(#[deku(count = "1", pad_bits_after = "3", cond = "(1 < 2)")] std::sync::Arc<[(u16, u8,)]>, #[deku(bits = "2", cond = "(0 < 2)", default = "(1) as i8", assert = "(((*field_1 as i128) <= 1) && ((*field_1 as i128) >= 0))")] i8, #[deku(count = "1")] std::sync::Arc<[[u32; 2]]>),
    #[deku(id = "24", default)]
    D { #[deku(cond = "(1 != 0)")] g0: Box<u32>, #[deku(assert = "((*g1 as i128) < 84)")] g1: i8, #[deku(until = "|v: &u8| ((*v as i128) < 100)", skip(write))] g2: Vec<u8>, g3: std::num::NonZeroU16 },
}
impl Conv for GE52 {
    fn tv(&self) -> Val { match self { GE52::V0 { g0, g1 } => Val::Var(0, vec![g0.tv(), g1.tv()]), GE52::V1(field_0, field_1, field_2) => Val::Var(1, vec![field_0.tv(), field_1.tv(), field_2.tv()]), GE52::D { g0, g1, g2, g3 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE52::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(1, i) => { let _ = i; GE52::V1(Conv::fv(&i[0]), Conv::fv(&i[1]), Conv::fv(&i[2])) }, Val::Var(2, i) => { let _ = i; GE52::D { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_GE52() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE52", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(6), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(18)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(2)), ..FieldD::new("g0", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(62)), ..FieldD::new("g1", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::Lt, l(1), l(2))), lim: Lim::Count(l(1)), ..FieldD::new("field_0", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(2)), cond: Some(b(Bop::Lt, l(0), l(2))), assert: Some(b(Bop::LAnd, b(Bop::Le, X::F(1), l(1)), b(Bop::Ge, X::F(1), l(0)))), default: Some(Default_::Int(l(1))), hint: Hint::Range(0, 1), ..FieldD::new("field_1", Ty::Int { w: 8, s: true }) }, FieldD { lim: Lim::Count(l(1)), ..FieldD::new("field_2", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)))) }] }, VariantD { name: "D", id: Some(Val::N(24)), explicit_id: true, pat: None, default: true, fields: vec![FieldD { cond: Some(b(Bop::Ne, l(1), l(0))), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { assert: Some(b(Bop::Lt, X::F(1), l(84))), hint: Hint::Range(0, 83), ..FieldD::new("g1", Ty::Int { w: 8, s: true }) }, FieldD { lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), skip: Skip::Write, ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("g3", Ty::NonZero { w: 16, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct GS53 (
    #[deku(reader = "custom::rd_xor(deku::reader)", writer = "custom::wr_xor(deku::writer, field_0)")]
    pub u8,
    #[deku(bits = 6, pad_bits_before = "((*field_0 as i128) % 2)", pad_bytes_before = "1", pad_bytes_after = "((*field_0 as i128) % 5)")]
    pub (u8, u8,),
    #[deku(bits_read = "(((*field_0 as i128) % 3) * 64)", magic = b"\x16\xc7")]
    pub std::sync::Arc<[u64]>,
    #[deku(read_all)]
    pub Vec<u8>,
);
impl Conv for GS53 {
    fn tv(&self) -> Val { Val::Rec(vec![self.0.tv(), self.1.tv(), self.2.tv(), self.3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS53( Conv::fv(&i[0]), Conv::fv(&i[1]), Conv::fv(&i[2]), Conv::fv(&i[3]) ) }
}
pub fn d_GS53() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS53", kind: Kind::Struct { fields: vec![FieldD { reader: Some(custom::m_rd_xor), writer: Some(custom::m_wr_xor), ..FieldD::new("field_0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(6)), pad_bits_before: Some(b(Bop::Rem, X::F(0), l(2))), pad_bytes_before: Some(l(1)), pad_bytes_after: Some(b(Bop::Rem, X::F(0), l(5))), ..FieldD::new("field_1", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])) }, FieldD { lim: Lim::Bits(b(Bop::Mul, b(Bop::Rem, X::F(0), l(3)), l(64))), magic: Some(b"\x16\xc7"), ..FieldD::new("field_2", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { lim: Lim::All, ..FieldD::new("field_3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(magic = b"\x5d\xf5", endian = "big")]
pub struct GS54 {
    #[deku(bits = "1", pad_bits_before = "0")]
    pub f0: bool,
}
impl Conv for GS54 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS54 { f0: Conv::fv(&i[0]) } }
}
pub fn d_GS54() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS54", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(1)), pad_bits_before: Some(l(0)), ..FieldD::new("f0", Ty::Bool) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: Some(b"\x5d\xf5"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb", id_type = "u8")]
pub enum GE55 {
    #[deku(id = "20")]
    V0 { #[deku(skip(read), cond = "(3 == 1)", default = "(3) as isize", assert = "((*g0 as i128) < 35)")] g0: isize, #[deku(update = "((*g1 as i128) & 1)", reader = "custom::rd_at(deku::reader, deku::bit_offset, deku::byte_offset)", writer = "custom::wr_at(deku::writer, *g1, deku::bit_offset, deku::byte_offset)")] g1: u32, #[deku(endian = "big", bytes = 2, update = "((*g2 as i128) & 3)")] g2: usize, #[deku(count = "((*g1 as i128) % 4)")] g3: Box<[[i128; 2]]> },
    #[deku(id = 14)]
    V1,
}
impl Conv for GE55 {
    fn tv(&self) -> Val { match self { GE55::V0 { g0, g1, g2, g3 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), GE55::V1 => Val::Var(1, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE55::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(1, i) => { let _ = i; GE55::V1 }, _ => panic!("shape") } }
}
pub fn d_GE55() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE55", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(20)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { cond: Some(b(Bop::Eq, l(3), l(1))), assert: Some(b(Bop::Lt, X::F(0), l(35))), skip: Skip::Read, default: Some(Default_::Int(l(3))), hint: Hint::Range(0, 34), ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }, FieldD { update: Some(b(Bop::And, X::F(1), l(1))), reader: Some(custom::m_rd_at), writer: Some(custom::m_wr_at), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(2)), update: Some(b(Bop::And, X::F(2), l(3))), ..FieldD::new("g2", Ty::Int { w: 64, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Rem, X::F(1), l(4))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 128, s: true }), 2)))) }] }, VariantD { name: "V1", id: Some(Val::N(14)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct GS56 {
    #[deku(bits = "7", pad_bits_before = "1")]
    pub f0: (u16, u16,),
    pub f1: bool,
}
impl Conv for GS56 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS56 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_GS56() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS56", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(7)), pad_bits_before: Some(l(1)), ..FieldD::new("f0", Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Int { w: 16, s: false }])) }, FieldD { ..FieldD::new("f1", Ty::Bool) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct GS57 {
    pub f0: u16,
    #[deku(magic = b"\x42\x76", reader = "custom::rd_at(deku::reader, deku::bit_offset, deku::byte_offset)", writer = "custom::wr_at(deku::writer, *f1, deku::bit_offset, deku::byte_offset)")]
    pub f1: u32,
    #[deku(endian = "big", pad_bits_after = "0", map = "custom::map_even")]
    pub f2: u16,
}
impl Conv for GS57 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS57 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_GS57() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS57", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { magic: Some(b"\x42\x76"), reader: Some(custom::m_rd_at), writer: Some(custom::m_wr_at), ..FieldD::new("f1", Ty::Int { w: 32, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bits_after: Some(l(0)), map: Some((Ty::Int { w: 16, s: false }, custom::m_map_even)), ..FieldD::new("f2", Ty::Int { w: 16, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct GS58 {
    #[deku(pad_bytes_after = "1", until = "|v: &u8| ((*v as i128) < 100)")]
    pub f0: Vec<u8>,
}
impl Conv for GS58 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS58 { f0: Conv::fv(&i[0]) } }
}
pub fn d_GS58() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS58", kind: Kind::Struct { fields: vec![FieldD { pad_bytes_after: Some(l(1)), lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct GS59 {
    #[deku(endian = "little", bits = 48)]
    pub f0: std::num::NonZeroIsize,
    pub f1: usize,
}
impl Conv for GS59 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS59 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_GS59() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS59", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(48)), ..FieldD::new("f0", Ty::NonZero { w: 64, s: true }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("f1", Ty::Int { w: 64, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct GS60 {
    #[deku(pad_bits_before = "2", until = "|v: &u8| ((*v as i128) < 100)")]
    pub f0: Vec<u8>,
    #[deku(bits = "10", pad_bits_before = "0", skip(read))]
    pub f1: Box<u16>,
    #[deku(temp, temp_value = "((f3.len() as i128)) as u8", bits = "4")]
    pub f2: u8,
    #[deku(count = "f2", assert = "((f3.len() as i128) < 5)")]
    pub f3: Box<[u128]>,
    #[deku(bits = 8)]
    pub f4: [std::num::NonZeroU16; 2],
    #[deku(pad_bits_after = "3")]
    pub f5: i16,
    #[deku(read_all)]
    pub f6: Vec<i8>,
}
impl Conv for GS60 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS60 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f3: Conv::fv(&i[2]), f4: Conv::fv(&i[3]), f5: Conv::fv(&i[4]), f6: Conv::fv(&i[5]) } }
}
pub fn d_GS60() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS60", kind: Kind::Struct { fields: vec![FieldD { pad_bits_before: Some(l(2)), lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(10)), pad_bits_before: Some(l(0)), skip: Skip::Read, ..FieldD::new("f1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(4)), temp_value: Some(b(Bop::And, X::Len(3), l(0xff))), temp: true, hint: Hint::Range(0, 6), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Lt, X::Len(3), l(5))), lim: Lim::Count(X::F(2)), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 128, s: false }))) }, FieldD { bits: Some(l(8)), ..FieldD::new("f4", Ty::Arr(Box::new(Ty::NonZero { w: 16, s: false }), 2)) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("f5", Ty::Int { w: 16, s: true }) }, FieldD { lim: Lim::All, ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb", id_type = "u16")]
pub enum GE61 {
    #[deku(id_pat = "34..=37")]
    P { g0: u16, g1: i128, #[deku(pad_bytes_after = "3")] g2: u32 },
    #[deku(id = 5)]
    V0 { #[deku(until = "|v: &u8| ((*v as i128) < 100)")] g0: Vec<u8>, #[deku(pad_bits_before = "2", pad_bytes_before = "3", skip(read), default = "(3) as i8", assert_eq = "(4) as i8")] g1: i8 },
    #[deku(id = "45")]
    V1 { #[deku(bits = 18, count = "((deku::byte_offset as i128) % 4)", pad_bits_after = "6")] g0: Vec<usize> },
    #[deku(id = 18)]
    V2(#[deku(bits = 3, pad_bytes_before = "3")] Box<u16>),
}
impl Conv for GE61 {
    fn tv(&self) -> Val { match self { GE61::P { g0, g1, g2 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv()]), GE61::V0 { g0, g1 } => Val::Var(1, vec![g0.tv(), g1.tv()]), GE61::V1 { g0 } => Val::Var(2, vec![g0.tv()]), GE61::V2(field_0) => Val::Var(3, vec![field_0.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE61::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(1, i) => { let _ = i; GE61::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(2, i) => { let _ = i; GE61::V1 { g0: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; GE61::V2(Conv::fv(&i[0])) }, _ => panic!("shape") } }
}
pub fn d_GE61() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE61", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(34, 37)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 128, s: true }) }, FieldD { pad_bytes_after: Some(l(3)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "V0", id: Some(Val::N(5)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { pad_bits_before: Some(l(2)), pad_bytes_before: Some(l(3)), assert_eq: Some(l(4)), skip: Skip::Read, default: Some(Default_::Int(l(3))), hint: Hint::Range(4, 4), ..FieldD::new("g1", Ty::Int { w: 8, s: true }) }] }, VariantD { name: "V1", id: Some(Val::N(45)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(18)), pad_bits_after: Some(l(6)), lim: Lim::Count(b(Bop::Rem, X::ByteOff, l(4))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }] }, VariantD { name: "V2", id: Some(Val::N(18)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(3)), pad_bytes_before: Some(l(3)), ..FieldD::new("field_0", Ty::Int { w: 16, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", id_type = "u128", bytes = 3)]
pub enum GE62 {
    #[deku(id = "17")]
    V0 { g0: bool, #[deku(skip(read), magic = b"\xc2\x92")] g1: Box<usize> },
}
impl Conv for GE62 {
    fn tv(&self) -> Val { match self { GE62::V0 { g0, g1 } => Val::Var(0, vec![g0.tv(), g1.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE62::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_GE62() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE62", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 128, s: false }, endian: None, order: None, bits: None, bytes: Some(3) }, variants: vec![VariantD { name: "V0", id: Some(Val::N(17)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Bool) }, FieldD { skip: Skip::Read, magic: Some(b"\xc2\x92"), ..FieldD::new("g1", Ty::Int { w: 64, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "u8")]
pub enum GI64 {
    #[deku(id = "0")]
    V0 { #[deku(bits = "7", assert = "(((*g0 as i128) <= 58) && ((*g0 as i128) >= 0))")] g0: i8, #[deku(pad_bits_after = "4", pad_bytes_after = "2")] g1: (u32, u32,), #[deku(bits = 102, skip, default = "(3) as u128")] g2: u128, #[deku(bits = 95, count = "((deku::bit_offset as i128) % 3)", skip(write), cond = "(0 != 0)")] g3: Vec<i128> },
    #[deku(id = 9, default)]
    D,
}
impl Conv for GI64 {
    fn tv(&self) -> Val { match self { GI64::V0 { g0, g1, g2, g3 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), GI64::D => Val::Var(1, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GI64::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(1, i) => { let _ = i; GI64::D }, _ => panic!("shape") } }
}
pub fn d_GI64() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI64", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(7)), assert: Some(b(Bop::LAnd, b(Bop::Le, X::F(0), l(58)), b(Bop::Ge, X::F(0), l(0)))), hint: Hint::Range(0, 58), ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }, FieldD { pad_bits_after: Some(l(4)), pad_bytes_after: Some(l(2)), ..FieldD::new("g1", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(102)), skip: Skip::All, default: Some(Default_::Int(l(3))), ..FieldD::new("g2", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(95)), cond: Some(b(Bop::Ne, l(0), l(0))), lim: Lim::Count(b(Bop::Rem, X::BitOff, l(3))), skip: Skip::Write, ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 128, s: true }))) }] }, VariantD { name: "D", id: Some(Val::N(9)), explicit_id: true, pat: None, default: true, fields: vec![] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb", id_type = "u8")]
pub enum GE63 {
    #[deku(id = "13")]
    V0(#[deku(until = "|v: &u8| ((*v as i128) == 0)")] Vec<u8>, #[deku(endian = "big", bit_order = "msb", bits = 15)] i32),
    #[deku(id = 19)]
    V1 { g0: u64, #[deku(endian = "little", cond = "((((*g0 as i128) + 6) & 3) <= 1)", default = "(((*g0 as i128) % 3)) as i8")] g1: i8, #[deku(bytes = "1")] g2: u32, #[deku(endian = "big", bit_order = "msb", bits = 8, pad_bits_before = "(((*g2 as i128) + 3) & 3)")] g3: u64, #[deku(bits = 96, pad_bits_before = "2")] g4: i128 },
    #[deku(id_pat = "_")]
    P { g0: u8, #[deku(bits = 8)] g1: [std::num::NonZeroI8; 2], #[deku(pad_bits_after = "2")] g2: GI64, #[deku(skip(write), cond = "(2 == 1)")] g3: f32 },
}
impl Conv for GE63 {
    fn tv(&self) -> Val { match self { GE63::V0(field_0, field_1) => Val::Var(0, vec![field_0.tv(), field_1.tv()]), GE63::V1 { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), GE63::P { g0, g1, g2, g3 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE63::V0(Conv::fv(&i[0]), Conv::fv(&i[1])) }, Val::Var(1, i) => { let _ = i; GE63::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(2, i) => { let _ = i; GE63::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_GE63() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE63", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(13)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("field_0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(15)), ..FieldD::new("field_1", Ty::Int { w: 32, s: true }) }] }, VariantD { name: "V1", id: Some(Val::N(19)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 64, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Le, b(Bop::And, b(Bop::Add, X::F(0), l(6)), l(3)), l(1))), default: Some(Default_::Int(b(Bop::Rem, X::F(0), l(3)))), ..FieldD::new("g1", Ty::Int { w: 8, s: true }) }, FieldD { bytes: Some(l(1)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(8)), pad_bits_before: Some(b(Bop::And, b(Bop::Add, X::F(2), l(3)), l(3))), hint: Hint::Range(0, 3), ..FieldD::new("g3", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(96)), pad_bits_before: Some(l(2)), ..FieldD::new("g4", Ty::Int { w: 128, s: true }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-170141183460469231731687303715884105728, 170141183460469231731687303715884105727)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), ..FieldD::new("g1", Ty::Arr(Box::new(Ty::NonZero { w: 8, s: true }), 2)) }, FieldD { pad_bits_after: Some(l(2)), ..FieldD::new("g2", Ty::Named(d_GI64)) }, FieldD { cond: Some(b(Bop::Eq, l(2), l(1))), skip: Skip::Write, ..FieldD::new("g3", Ty::Float { w: 32 }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "msb")]
pub struct GS65 {
    #[deku(bits = 2, pad_bytes_after = "2", map = "custom::map_same")]
    pub f0: u8,
    pub f1: u16,
    #[deku(pad_bits_after = "((*f1 as i128) % 3)")]
    pub f2: (u64, u64,),
    #[deku(assert = "((*f3 as i128) < 9)")]
    pub f3: u128,
    #[deku(bits = "4", bits_read = "(((*f1 as i128) % 5) * 4)", skip, cond = "(((*f1 as i128) % 3) <= 1)")]
    pub f4: Vec<bool>,
}
impl Conv for GS65 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS65 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_GS65() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS65", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(2)), pad_bytes_after: Some(l(2)), map: Some((Ty::Int { w: 8, s: false }, custom::m_map_same)), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 16, s: false }) }, FieldD { pad_bits_after: Some(b(Bop::Rem, X::F(1), l(3))), ..FieldD::new("f2", Ty::Tup(vec![Ty::Int { w: 64, s: false }, Ty::Int { w: 64, s: false }])) }, FieldD { assert: Some(b(Bop::Lt, X::F(3), l(9))), hint: Hint::Range(0, 8), ..FieldD::new("f3", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(4)), cond: Some(b(Bop::Le, b(Bop::Rem, X::F(1), l(3)), l(1))), lim: Lim::Bits(b(Bop::Mul, b(Bop::Rem, X::F(1), l(5)), l(4))), skip: Skip::All, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Bool))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct GS66 {
    #[deku(endian = "big")]
    pub f0: Box<u8>,
    #[deku(endian = "big", bits = 63)]
    pub f1: [u64; 2],
    #[deku(pad_bytes_before = "2", reader = "custom::rd_at(deku::reader, deku::bit_offset, deku::byte_offset)", writer = "custom::wr_at(deku::writer, *f2, deku::bit_offset, deku::byte_offset)")]
    pub f2: u32,
    #[deku(assert = "(((*f3 as i128) <= 59) && ((*f3 as i128) >= 0))")]
    pub f3: u16,
    #[deku(pad_bytes_before = "((*f2 as i128) % 3)", until = "|v: &u8| ((*v as i128) < 100)", skip, cond = "((((*f2 as i128) % 5) != 0) || (((*f3 as i128) % 3) >= 1))")]
    pub f4: Vec<u8>,
}
impl Conv for GS66 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS66 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_GS66() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS66", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(63)), ..FieldD::new("f1", Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)) }, FieldD { pad_bytes_before: Some(l(2)), reader: Some(custom::m_rd_at), writer: Some(custom::m_wr_at), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Le, X::F(3), l(59)), b(Bop::Ge, X::F(3), l(0)))), hint: Hint::Range(0, 59), ..FieldD::new("f3", Ty::Int { w: 16, s: false }) }, FieldD { pad_bytes_before: Some(b(Bop::Rem, X::F(2), l(3))), cond: Some(b(Bop::LOr, b(Bop::Ne, b(Bop::Rem, X::F(2), l(5)), l(0)), b(Bop::Ge, b(Bop::Rem, X::F(3), l(3)), l(1)))), lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), skip: Skip::All, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct GS67 {
    #[deku(until = "|v: &u8| ((*v as i128) == 0)")]
    pub f0: Vec<u8>,
}
impl Conv for GS67 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS67 { f0: Conv::fv(&i[0]) } }
}
pub fn d_GS67() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS67", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct GS68 (
    #[deku(bits = "8", count = "1", pad_bits_before = "5")]
    pub Vec<std::num::NonZeroI8>,
    #[deku(bits = 1)]
    pub i64,
    #[deku(endian = "little", bit_order = "msb")]
    pub bool,
);
impl Conv for GS68 {
    fn tv(&self) -> Val { Val::Rec(vec![self.0.tv(), self.1.tv(), self.2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS68( Conv::fv(&i[0]), Conv::fv(&i[1]), Conv::fv(&i[2]) ) }
}
pub fn d_GS68() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS68", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(8)), pad_bits_before: Some(l(5)), lim: Lim::Count(l(1)), ..FieldD::new("field_0", Ty::Vec(Box::new(Ty::NonZero { w: 8, s: true }))) }, FieldD { bits: Some(l(1)), ..FieldD::new("field_1", Ty::Int { w: 64, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("field_2", Ty::Bool) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct GS69 {
    pub f0: bool,
    #[deku(skip(read), assert = "((*f1 as i128) <= 12)")]
    pub f1: i8,
    #[deku(temp, temp_value = "((f3.len() as i128)) as u8", bits = 8)]
    pub f2: u8,
    #[deku(count = "f2", pad_bits_after = "2", assert = "((f3.len() as i128) < 7)")]
    pub f3: std::sync::Arc<[bool]>,
    #[deku(bits = 2, read_all)]
    pub f4: Vec<u8>,
}
impl Conv for GS69 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS69 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f3: Conv::fv(&i[2]), f4: Conv::fv(&i[3]) } }
}
pub fn d_GS69() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS69", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Bool) }, FieldD { assert: Some(b(Bop::Le, X::F(1), l(12))), skip: Skip::Read, hint: Hint::Range(0, 12), ..FieldD::new("f1", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(8)), temp_value: Some(b(Bop::And, X::Len(3), l(0xff))), temp: true, hint: Hint::Range(0, 6), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(2)), assert: Some(b(Bop::Lt, X::Len(3), l(7))), lim: Lim::Count(X::F(2)), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { bits: Some(l(2)), lim: Lim::All, ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order, k: u8", id_type = "u8")]
pub enum GI71 {
    #[deku(id = "0")]
    V0 { #[deku(assert_eq = "(0) as i64")] g0: i64, #[deku(endian = "little", update = "((*g1 as i128) & 5)")] g1: u32, #[deku(bits = 3, pad_bits_before = "((k as i128) % 4)")] g2: i8 },
    #[deku(id = 1)]
    V1 { #[deku(count = "((k as i128) % 4)")] g0: std::sync::Arc<[(u8, u8,)]>, g1: u8 },
    #[deku(id = "9", default)]
    D,
}
impl Conv for GI71 {
    fn tv(&self) -> Val { match self { GI71::V0 { g0, g1, g2 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv()]), GI71::V1 { g0, g1 } => Val::Var(1, vec![g0.tv(), g1.tv()]), GI71::D => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GI71::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(1, i) => { let _ = i; GI71::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(2, i) => { let _ = i; GI71::D }, _ => panic!("shape") } }
}
pub fn d_GI71() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI71", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { assert_eq: Some(l(0)), hint: Hint::Range(0, 0), ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), update: Some(b(Bop::And, X::F(1), l(5))), hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(3)), pad_bits_before: Some(b(Bop::Rem, X::C(2), l(4))), ..FieldD::new("g2", Ty::Int { w: 8, s: true }) }] }, VariantD { name: "V1", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { lim: Lim::Count(b(Bop::Rem, X::C(2), l(4))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(9)), explicit_id: true, pat: None, default: true, fields: vec![] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "msb")]
pub struct GS70 {
    #[deku(endian = "big", pad_bits_before = "0", update = "((self.f3.len() as i128) & 15)")]
    pub f0: u8,
    #[deku(assert = "(((*f1 as i128) <= 14) && ((*f1 as i128) >= 0))")]
    pub f1: i8,
    #[deku(temp, temp_value = "((f3.len() as i128)) as u16", bits = 8)]
    pub f2: u16,
    #[deku(count = "f2")]
    pub f3: Box<[u8]>,
    #[deku(ctx = "((((*f0 as i128) + 4) & 3)) as u8")]
    pub f4: GI71,
    #[deku(endian = "little", map = "custom::map_even")]
    pub f5: u16,
}
impl Conv for GS70 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS70 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f3: Conv::fv(&i[2]), f4: Conv::fv(&i[3]), f5: Conv::fv(&i[4]) } }
}
pub fn d_GS70() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS70", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bits_before: Some(l(0)), update: Some(b(Bop::And, X::Len(3), l(15))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Le, X::F(1), l(14)), b(Bop::Ge, X::F(1), l(0)))), hint: Hint::Range(0, 14), ..FieldD::new("f1", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(8)), temp_value: Some(b(Bop::And, X::Len(3), l(0xffff))), temp: true, hint: Hint::Range(0, 6), ..FieldD::new("f2", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ctx: vec![b(Bop::And, b(Bop::And, b(Bop::Add, X::F(0), l(4)), l(3)), l(0xff))], ..FieldD::new("f4", Ty::Named(d_GI71)) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), map: Some((Ty::Int { w: 16, s: false }, custom::m_map_even)), ..FieldD::new("f5", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", seek_rewind)]
pub struct GS72 {
    #[deku(assert = "(((*f0 as i128) <= 27) && ((*f0 as i128) >= 0))")]
    pub f0: u16,
    #[deku(cond = "((((*f0 as i128) + 9) & 3) >= 1)", default = "(3) as u8", reader = "custom::rd_five(deku::reader)", writer = "custom::wr_five(deku::writer, *f1)")]
    pub f1: u8,
    #[deku(endian = "little", bit_order = "msb", bits = "55", skip, cond = "((((*f1 as i128) % 3) * ((*f0 as i128) % 3)) < 2)", assert = "(((*f2 as i128) <= 80) && ((*f2 as i128) >= 0))")]
    pub f2: isize,
    #[deku(pad_bytes_before = "2", assert = "((*f3 as i128) <= 11)", magic = b"\xf0\x25")]
    pub f3: usize,
    pub f4: u8,
}
impl Conv for GS72 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS72 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_GS72() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS72", kind: Kind::Struct { fields: vec![FieldD { assert: Some(b(Bop::LAnd, b(Bop::Le, X::F(0), l(27)), b(Bop::Ge, X::F(0), l(0)))), hint: Hint::Range(0, 27), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { cond: Some(b(Bop::Ge, b(Bop::And, b(Bop::Add, X::F(0), l(9)), l(3)), l(1))), default: Some(Default_::Int(b(Bop::And, l(3), l(0xff)))), reader: Some(custom::m_rd_five), writer: Some(custom::m_wr_five), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(55)), cond: Some(b(Bop::Lt, b(Bop::Mul, b(Bop::Rem, X::F(1), l(3)), b(Bop::Rem, X::F(0), l(3))), l(2))), assert: Some(b(Bop::LAnd, b(Bop::Le, X::F(2), l(80)), b(Bop::Ge, X::F(2), l(0)))), skip: Skip::All, hint: Hint::Range(0, 80), ..FieldD::new("f2", Ty::Int { w: 64, s: true }) }, FieldD { pad_bytes_before: Some(l(2)), assert: Some(b(Bop::Le, X::F(3), l(11))), magic: Some(b"\xf0\x25"), hint: Hint::Range(0, 11), ..FieldD::new("f3", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: Some(SeekSpec::Rewind) }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct GI74 {
    #[deku(until = "|v: &u8| ((*v as i128) < 100)")]
    pub f0: Vec<u8>,
    #[deku(endian = "little", bit_order = "lsb", bits = 2)]
    pub f1: bool,
}
impl Conv for GI74 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GI74 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_GI74() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI74", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(2)), ..FieldD::new("f1", Ty::Bool) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct GS73 {
    #[deku(bits_read = "(0 * 8)")]
    pub f0: std::sync::Arc<[u8]>,
    #[deku(temp, temp_value = "((f2.len() as i128)) as u8")]
    pub f1: u8,
    #[deku(count = "f1")]
    pub f2: Vec<[bool; 2]>,
    #[deku(pad_bytes_after = "0")]
    pub f3: GI74,
}
impl Conv for GS73 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS73 { f0: Conv::fv(&i[0]), f2: Conv::fv(&i[1]), f3: Conv::fv(&i[2]) } }
}
pub fn d_GS73() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS73", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Bits(b(Bop::Mul, l(0), l(8))), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { temp_value: Some(b(Bop::And, X::Len(2), l(0xff))), temp: true, hint: Hint::Range(0, 6), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Bool), 2)))) }, FieldD { pad_bytes_after: Some(l(0)), ..FieldD::new("f3", Ty::Named(d_GI74)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct GS75 {
    #[deku(temp, temp_value = "((f1.len() as i128)) as u16", bits = "4")]
    pub f0: u16,
    #[deku(bits = "1", count = "f0", skip, cond = "(2 == 1)")]
    pub f1: Vec<bool>,
}
impl Conv for GS75 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS75 { f1: Conv::fv(&i[0]) } }
}
pub fn d_GS75() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS75", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), temp_value: Some(b(Bop::And, X::Len(1), l(0xffff))), temp: true, hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(1)), cond: Some(b(Bop::Eq, l(2), l(1))), lim: Lim::Count(X::F(0)), skip: Skip::All, ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Bool))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct GS76 {
    #[deku(endian = "little", bits = 59, skip, cond = "(3 == 1)", default = "(2) as u64")]
    pub f0: u64,
    #[deku(until = "|v: &u8| ((*v as i128) == 0)")]
    pub f1: Vec<u8>,
    #[deku(bits = "7", magic = b"\xed")]
    pub f2: u8,
    pub f3: bool,
}
impl Conv for GS76 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS76 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_GS76() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS76", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), bits: Some(l(59)), cond: Some(b(Bop::Eq, l(3), l(1))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffffffffffff)))), ..FieldD::new("f0", Ty::Int { w: 64, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(7)), magic: Some(b"\xed"), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f3", Ty::Bool) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\x9a\xb2\x11", endian = "big", id_type = "u64", bits = 3)]
pub enum GE77 {
    #[deku(id = "0")]
    V0 { #[deku(count = "2")] g0: Vec<bool>, #[deku(count = "0")] g1: std::sync::Arc<[[usize; 2]]>, #[deku(bytes = 2, count = "0", assert = "((g2.len() as i128) < 6)")] g2: Box<[[i16; 2]]> },
    #[deku(id = 3)]
    V1 { #[deku(bits = "4")] g0: u8, #[deku(until = "|v: &u8| ((*v as i128) == 0)")] g1: Vec<u8> },
    #[deku(id = "1")]
    V2,
}
impl Conv for GE77 {
    fn tv(&self) -> Val { match self { GE77::V0 { g0, g1, g2 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv()]), GE77::V1 { g0, g1 } => Val::Var(1, vec![g0.tv(), g1.tv()]), GE77::V2 => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE77::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(1, i) => { let _ = i; GE77::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(2, i) => { let _ = i; GE77::V2 }, _ => panic!("shape") } }
}
pub fn d_GE77() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE77", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 64, s: false }, endian: None, order: None, bits: Some(3), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { lim: Lim::Count(l(2)), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { lim: Lim::Count(l(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)))) }, FieldD { bytes: Some(l(2)), assert: Some(b(Bop::Lt, X::Len(2), l(6))), lim: Lim::Count(l(0)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 16, s: true }), 2)))) }] }, VariantD { name: "V1", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "V2", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: Some(b"\x9a\xb2\x11"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct GS78 (
    pub u64,
    #[deku(count = "((*field_0 as i128) % 3)")]
    pub Vec<u8>,
    #[deku(until = "|v: &u8| ((*v as i128) < 100)", skip(read))]
    pub Vec<u8>,
);
impl Conv for GS78 {
    fn tv(&self) -> Val { Val::Rec(vec![self.0.tv(), self.1.tv(), self.2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS78( Conv::fv(&i[0]), Conv::fv(&i[1]), Conv::fv(&i[2]) ) }
}
pub fn d_GS78() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS78", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 64, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Rem, X::F(0), l(3))), ..FieldD::new("field_1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), skip: Skip::Read, ..FieldD::new("field_2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "msb")]
pub struct GS79 {
    pub f0: u32,
    #[deku(bits = "37", bits_read = "(((*f0 as i128) % 3) * 37)")]
    pub f1: Vec<i128>,
    #[deku(magic = b"\xf9\x9b")]
    pub f2: bool,
}
impl Conv for GS79 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS79 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_GS79() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS79", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(37)), lim: Lim::Bits(b(Bop::Mul, b(Bop::Rem, X::F(0), l(3)), l(37))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 128, s: true }))) }, FieldD { magic: Some(b"\xf9\x9b"), ..FieldD::new("f2", Ty::Bool) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct GS80 (
    #[deku(endian = "big")]
    pub u32,
    #[deku(bits = "8", pad_bits_after = "7", magic = b"\xc5\xa3\xf9")]
    pub [u32; 2],
    pub u8,
);
impl Conv for GS80 {
    fn tv(&self) -> Val { Val::Rec(vec![self.0.tv(), self.1.tv(), self.2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS80( Conv::fv(&i[0]), Conv::fv(&i[1]), Conv::fv(&i[2]) ) }
}
pub fn d_GS80() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS80", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("field_0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(8)), pad_bits_after: Some(l(7)), magic: Some(b"\xc5\xa3\xf9"), ..FieldD::new("field_1", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { ..FieldD::new("field_2", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct GS81 (
    #[deku(pad_bits_after = "3", skip(read), cond = "((1 <= 1) || (2 >= 1))", default = "(2) as u32", reader = "custom::rd_at(deku::reader, deku::bit_offset, deku::byte_offset)", writer = "custom::wr_at(deku::writer, *field_0, deku::bit_offset, deku::byte_offset)")]
    pub u32,
);
impl Conv for GS81 {
    fn tv(&self) -> Val { Val::Rec(vec![self.0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS81( Conv::fv(&i[0]) ) }
}
pub fn d_GS81() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS81", kind: Kind::Struct { fields: vec![FieldD { pad_bits_after: Some(l(3)), cond: Some(b(Bop::LOr, b(Bop::Le, l(1), l(1)), b(Bop::Ge, l(2), l(1)))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffff)))), reader: Some(custom::m_rd_at), writer: Some(custom::m_wr_at), ..FieldD::new("field_0", Ty::Int { w: 32, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "u8")]
pub enum GI83 {
    #[deku(id = "0")]
    V0 { #[deku(endian = "big", pad_bits_after = "0", cond = "(3 >= 1)", default = "(1) as u16", map = "custom::map_even")] g0: u16, #[deku(bits = "16")] g1: Box<std::num::NonZeroI16>, #[deku(cond = "((3 <= 1) || (1 >= 1))", default = "(3) as u32", reader = "custom::rd_at(deku::reader, deku::bit_offset, deku::byte_offset)", writer = "custom::wr_at(deku::writer, *g2, deku::bit_offset, deku::byte_offset)")] g2: u32 },
    #[deku(id = 1)]
    V1 { g0: (i64, i64,), #[deku(bits = "7", bits_read = "(2 * 7)", cond = "(3 <= 1)")] g1: Box<[u8]>, #[deku(bits = "4", bits_read = "(1 * 4)", pad_bytes_before = "1", pad_bits_after = "3", magic = b"\xc5")] g2: Box<[bool]>, #[deku(until = "|v: &u8| ((*v as i128) < 100)", skip, cond = "(3 == 1)")] g3: Vec<u8>, #[deku(bits = "1", assert = "(((*g4 as i128) <= 1) && ((*g4 as i128) >= 0))")] g4: u16 },
    #[deku(id = "2")]
    V2 { #[deku(bytes_read = "(2 * 1)", skip(write), cond = "(1 != 0)")] g0: Box<[i8]>, #[deku(bits = 80)] g1: std::num::NonZeroU128, #[deku(pad_bits_after = "3")] g2: u32, #[deku(bytes_read = "(((*g2 as i128) % 4) * 8)", pad_bits_after = "((*g2 as i128) % 2)")] g3: Box<[isize]> },
    #[deku(id = 9, default)]
    D,
}
impl Conv for GI83 {
    fn tv(&self) -> Val { match self { GI83::V0 { g0, g1, g2 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv()]), GI83::V1 { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), GI83::V2 { g0, g1, g2, g3 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), GI83::D => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GI83::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(1, i) => { let _ = i; GI83::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(2, i) => { let _ = i; GI83::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(3, i) => { let _ = i; GI83::D }, _ => panic!("shape") } }
}
pub fn d_GI83() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI83", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bits_after: Some(l(0)), cond: Some(b(Bop::Ge, l(3), l(1))), default: Some(Default_::Int(b(Bop::And, l(1), l(0xffff)))), map: Some((Ty::Int { w: 16, s: false }, custom::m_map_even)), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(16)), ..FieldD::new("g1", Ty::NonZero { w: 16, s: true }) }, FieldD { cond: Some(b(Bop::LOr, b(Bop::Le, l(3), l(1)), b(Bop::Ge, l(1), l(1)))), default: Some(Default_::Int(b(Bop::And, l(3), l(0xffffffff)))), reader: Some(custom::m_rd_at), writer: Some(custom::m_wr_at), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Tup(vec![Ty::Int { w: 64, s: true }, Ty::Int { w: 64, s: true }])) }, FieldD { bits: Some(l(7)), cond: Some(b(Bop::Le, l(3), l(1))), lim: Lim::Bits(b(Bop::Mul, l(2), l(7))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(4)), pad_bytes_before: Some(l(1)), pad_bits_after: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, l(1), l(4))), magic: Some(b"\xc5"), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { cond: Some(b(Bop::Eq, l(3), l(1))), lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), skip: Skip::All, ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(1)), assert: Some(b(Bop::LAnd, b(Bop::Le, X::F(4), l(1)), b(Bop::Ge, X::F(4), l(0)))), hint: Hint::Range(0, 1), ..FieldD::new("g4", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V2", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { cond: Some(b(Bop::Ne, l(1), l(0))), lim: Lim::Bytes(b(Bop::Mul, l(2), l(1))), skip: Skip::Write, ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(80)), ..FieldD::new("g1", Ty::NonZero { w: 128, s: false }) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { pad_bits_after: Some(b(Bop::Rem, X::F(2), l(2))), lim: Lim::Bytes(b(Bop::Mul, b(Bop::Rem, X::F(2), l(4)), l(8))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }] }, VariantD { name: "D", id: Some(Val::N(9)), explicit_id: true, pat: None, default: true, fields: vec![] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "u8")]
pub enum GI84 {
    #[deku(id = "0")]
    V0 { g0: u8, g1: bool, #[deku(pad_bytes_after = "1", until = "|v: &u8| ((*v as i128) == 0)")] g2: Vec<u8>, #[deku(until = "|v: &u8| ((*v as i128) < 100)")] g3: Vec<u8> },
    #[deku(id = 9, default)]
    D,
}
impl Conv for GI84 {
    fn tv(&self) -> Val { match self { GI84::V0 { g0, g1, g2, g3 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), GI84::D => Val::Var(1, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GI84::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(1, i) => { let _ = i; GI84::D }, _ => panic!("shape") } }
}
pub fn d_GI84() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI84", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Bool) }, FieldD { pad_bytes_after: Some(l(1)), lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "D", id: Some(Val::N(9)), explicit_id: true, pat: None, default: true, fields: vec![] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct GS82 (
    pub GI83,
    #[deku(assert = "((*field_1 as i128) < 200)", reader = "custom::rd_five(deku::reader)", writer = "custom::wr_five(deku::writer, *field_1)")]
    pub u8,
    #[deku(pad_bits_after = "((*field_1 as i128) % 4)")]
    pub Box<GI84>,
);
impl Conv for GS82 {
    fn tv(&self) -> Val { Val::Rec(vec![self.0.tv(), self.1.tv(), self.2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS82( Conv::fv(&i[0]), Conv::fv(&i[1]), Conv::fv(&i[2]) ) }
}
pub fn d_GS82() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS82", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("field_0", Ty::Named(d_GI83)) }, FieldD { assert: Some(b(Bop::Lt, X::F(1), l(200))), hint: Hint::Range(0, 3), reader: Some(custom::m_rd_five), writer: Some(custom::m_wr_five), ..FieldD::new("field_1", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(b(Bop::Rem, X::F(1), l(4))), ..FieldD::new("field_2", Ty::Named(d_GI84)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct GI86 {
    #[deku(bits = "1", count = "3", pad_bits_after = "9")]
    pub f0: std::sync::Arc<[[u16; 2]]>,
    #[deku(endian = "big", bit_order = "lsb")]
    pub f1: i32,
    #[deku(cond = "(1 <= 1)", default = "(0) as u16", map = "custom::map_double")]
    pub f2: u16,
    pub f3: u16,
    #[deku(until = "|v: &u8| ((*v as i128) < 100)", cond = "(2 < 2)")]
    pub f4: Vec<u8>,
}
impl Conv for GI86 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GI86 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_GI86() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI86", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(1)), pad_bits_after: Some(l(9)), lim: Lim::Count(l(3)), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f1", Ty::Int { w: 32, s: true }) }, FieldD { cond: Some(b(Bop::Le, l(1), l(1))), default: Some(Default_::Int(b(Bop::And, l(0), l(0xffff)))), map: Some((Ty::Int { w: 8, s: false }, custom::m_map_double)), ..FieldD::new("f2", Ty::Int { w: 16, s: false }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("f3", Ty::Int { w: 16, s: false }) }, FieldD { cond: Some(b(Bop::Lt, l(2), l(2))), lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", id_type = "u16", bits = 8)]
pub enum GE85 {
    #[deku(id = "17")]
    V0,
    #[deku(id = 7)]
    V1 { g0: [u8; 2], g1: GI86 },
    #[deku(id = "41")]
    V2(#[deku(endian = "little", cond = "((3 <= 1) || (0 >= 1))", default = "(0) as u16", magic = b"\xcf", map = "custom::map_even")] u16, #[deku(until = "|v: &u8| ((*v as i128) == 0)")] Vec<u8>, #[deku(until = "|v: &u8| ((*v as i128) == 0)")] Vec<u8>),
    #[deku(id = 56)]
    V3 { #[deku(bytes = 2, pad_bits_before = "9")] g0: i16, #[deku(bytes_read = "(0 * 3)")] g1: Vec<(i16, u8,)> },
    #[deku(id_pat = "_")]
    P { g0: u16, #[deku(bytes_read = "(3 * 2)")] g1: std::sync::Arc<[u16]>, #[deku(bits = "7", map = "custom::map_same")] g2: u8, #[deku(bits = 53, pad_bits_before = "3", skip(write), cond = "(0 == 1)", default = "(2) as usize")] g3: usize, #[deku(bits = 3, pad_bits_after = "5")] g4: i8, #[deku(endian = "big", map = "custom::map_even")] g5: u16 },
}
impl Conv for GE85 {
    fn tv(&self) -> Val { match self { GE85::V0 => Val::Var(0, vec![]), GE85::V1 { g0, g1 } => Val::Var(1, vec![g0.tv(), g1.tv()]), GE85::V2(field_0, field_1, field_2) => Val::Var(2, vec![field_0.tv(), field_1.tv(), field_2.tv()]), GE85::V3 { g0, g1 } => Val::Var(3, vec![g0.tv(), g1.tv()]), GE85::P { g0, g1, g2, g3, g4, g5 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE85::V0 }, Val::Var(1, i) => { let _ = i; GE85::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(2, i) => { let _ = i; GE85::V2(Conv::fv(&i[0]), Conv::fv(&i[1]), Conv::fv(&i[2])) }, Val::Var(3, i) => { let _ = i; GE85::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(4, i) => { let _ = i; GE85::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, _ => panic!("shape") } }
}
pub fn d_GE85() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE85", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: None, order: None, bits: Some(8), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(17)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V1", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)) }, FieldD { ..FieldD::new("g1", Ty::Named(d_GI86)) }] }, VariantD { name: "V2", id: Some(Val::N(41)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::LOr, b(Bop::Le, l(3), l(1)), b(Bop::Ge, l(0), l(1)))), default: Some(Default_::Int(b(Bop::And, l(0), l(0xffff)))), magic: Some(b"\xcf"), map: Some((Ty::Int { w: 16, s: false }, custom::m_map_even)), ..FieldD::new("field_0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("field_1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("field_2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "V3", id: Some(Val::N(56)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bytes: Some(l(2)), pad_bits_before: Some(l(9)), ..FieldD::new("g0", Ty::Int { w: 16, s: true }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, l(0), l(3))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 16, s: true }, Ty::Int { w: 8, s: false }])))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-170141183460469231731687303715884105728, 170141183460469231731687303715884105727)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, l(3), l(2))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(7)), map: Some((Ty::Int { w: 8, s: false }, custom::m_map_same)), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(53)), pad_bits_before: Some(l(3)), cond: Some(b(Bop::Eq, l(0), l(1))), skip: Skip::Write, default: Some(Default_::Int(b(Bop::And, l(2), l(0xffffffffffffffff)))), ..FieldD::new("g3", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(3)), pad_bits_after: Some(l(5)), ..FieldD::new("g4", Ty::Int { w: 8, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), map: Some((Ty::Int { w: 16, s: false }, custom::m_map_even)), ..FieldD::new("g5", Ty::Int { w: 16, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
pub enum GI88 {
    #[deku(id = "0")]
    V0 { #[deku(count = "3", assert = "((g0.len() as i128) < 8)")] g0: Vec<[bool; 2]>, #[deku(endian = "big", bits = "7")] g1: (u32, u32,), #[deku(pad_bits_before = "4")] g2: u128 },
    #[deku(id = 1)]
    V1 { #[deku(endian = "big", bits = "16", update = "((*g1 as i128) & 9)")] g0: usize, #[deku(update = "((g2.len() as i128) & 15)", reader = "custom::rd_xor(deku::reader)", writer = "custom::wr_xor(deku::writer, g1)")] g1: u8, #[deku(count = "0")] g2: Box<[i8]>, #[deku(bits = "1", cond = "(1 == 1)", default = "(2) as u8", map = "custom::map_same")] g3: u8, #[deku(bits = 2, count = "((deku::byte_offset as i128) % 4)", skip(write), cond = "(0 == 1)")] g4: Box<[u8]> },
    #[deku(id = "2")]
    V2 { #[deku(bits = 62, pad_bits_before = "1", pad_bytes_before = "3", assert = "((*g0 as i128) < 31)")] g0: usize, #[deku(bits = "1")] g1: u8, #[deku(endian = "little", bit_order = "lsb", bits = "7", assert_eq = "(0) as i8")] g2: i8, #[deku(pad_bits_before = "((*g0 as i128) % 3)", update = "(((*g3 as i128) & 15) + 99)", reader = "custom::rd_xor(deku::reader)", writer = "custom::wr_xor(deku::writer, g3)")] g3: u8, #[deku(bits = 9, update = "13", magic = b"\xb4\x6e")] g4: u16 },
    #[deku(id = 9, default)]
    D,
}
impl Conv for GI88 {
    fn tv(&self) -> Val { match self { GI88::V0 { g0, g1, g2 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv()]), GI88::V1 { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), GI88::V2 { g0, g1, g2, g3, g4 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), GI88::D => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GI88::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(1, i) => { let _ = i; GI88::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(2, i) => { let _ = i; GI88::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(3, i) => { let _ = i; GI88::D }, _ => panic!("shape") } }
}
pub fn d_GI88() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI88", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { assert: Some(b(Bop::Lt, X::Len(0), l(8))), lim: Lim::Count(l(3)), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Bool), 2)))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(7)), ..FieldD::new("g1", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { pad_bits_before: Some(l(4)), ..FieldD::new("g2", Ty::Int { w: 128, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(16)), update: Some(b(Bop::And, X::F(1), l(9))), ..FieldD::new("g0", Ty::Int { w: 64, s: false }) }, FieldD { update: Some(b(Bop::And, X::Len(2), l(15))), reader: Some(custom::m_rd_xor), writer: Some(custom::m_wr_xor), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(l(0)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(1)), cond: Some(b(Bop::Eq, l(1), l(1))), default: Some(Default_::Int(b(Bop::And, l(2), l(0xff)))), map: Some((Ty::Int { w: 8, s: false }, custom::m_map_same)), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), cond: Some(b(Bop::Eq, l(0), l(1))), lim: Lim::Count(b(Bop::Rem, X::ByteOff, l(4))), skip: Skip::Write, ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "V2", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(62)), pad_bits_before: Some(l(1)), pad_bytes_before: Some(l(3)), assert: Some(b(Bop::Lt, X::F(0), l(31))), hint: Hint::Range(0, 30), ..FieldD::new("g0", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(1)), hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(7)), assert_eq: Some(l(0)), hint: Hint::Range(0, 0), ..FieldD::new("g2", Ty::Int { w: 8, s: true }) }, FieldD { pad_bits_before: Some(b(Bop::Rem, X::F(0), l(3))), update: Some(b(Bop::Add, b(Bop::And, X::F(3), l(15)), l(99))), reader: Some(custom::m_rd_xor), writer: Some(custom::m_wr_xor), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(9)), update: Some(l(13)), magic: Some(b"\xb4\x6e"), ..FieldD::new("g4", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(9)), explicit_id: true, pat: None, default: true, fields: vec![] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "u64")]
pub enum GE87 {
    #[deku(id = "13")]
    V0,
    #[deku(id = 27)]
    V1 { #[deku(until = "|v: &u8| ((*v as i128) < 100)")] g0: Vec<u8>, #[deku(bits = "49", assert = "((*g1 as i128) < 70)", magic = b"\x08")] g1: u128, #[deku(bits = 5)] g2: u8, #[deku(cond = "(0 <= 1)", default = "(0) as u8", assert = "((*g3 as i128) < 200)", reader = "custom::rd_five(deku::reader)", writer = "custom::wr_five(deku::writer, *g3)")] g3: u8, #[deku(bits = 62)] g4: u64 },
    #[deku(id = "11")]
    V2 { #[deku(count = "0", assert = "((g0.len() as i128) < 8)")] g0: Vec<[bool; 2]>, #[deku(pad_bits_after = "2")] g1: usize, g2: GI88, #[deku(bits = 24, update = "((g0.len() as i128) & 15)")] g3: u32 },
    #[deku(id_pat = "_")]
    P { g0: u64, #[deku(endian = "little", bit_order = "lsb", bits = 20, skip, cond = "(0 != 0)", default = "(3) as u32")] g1: u32, #[deku(pad_bits_before = "1")] g2: Box<u8>, #[deku(bits = "22")] g3: Box<u32>, #[deku(until = "|v: &u8| ((*v as i128) == 0)")] g4: Vec<u8> },
}
impl Conv for GE87 {
    fn tv(&self) -> Val { match self { GE87::V0 => Val::Var(0, vec![]), GE87::V1 { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), GE87::V2 { g0, g1, g2, g3 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), GE87::P { g0, g1, g2, g3, g4 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; GE87::V0 }, Val::Var(1, i) => { let _ = i; GE87::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(2, i) => { let _ = i; GE87::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(3, i) => { let _ = i; GE87::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_GE87() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GE87", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 64, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(13)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V1", id: Some(Val::N(27)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { lim: Lim::Until(b(Bop::Lt, X::Elem, l(100))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(49)), assert: Some(b(Bop::Lt, X::F(1), l(70))), magic: Some(b"\x08"), hint: Hint::Range(0, 69), ..FieldD::new("g1", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(5)), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Le, l(0), l(1))), assert: Some(b(Bop::Lt, X::F(3), l(200))), default: Some(Default_::Int(b(Bop::And, l(0), l(0xff)))), reader: Some(custom::m_rd_five), writer: Some(custom::m_wr_five), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(62)), hint: Hint::Range(0, 3), ..FieldD::new("g4", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "V2", id: Some(Val::N(11)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { assert: Some(b(Bop::Lt, X::Len(0), l(8))), lim: Lim::Count(l(0)), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Bool), 2)))) }, FieldD { pad_bits_after: Some(l(2)), ..FieldD::new("g1", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("g2", Ty::Named(d_GI88)) }, FieldD { bits: Some(l(24)), update: Some(b(Bop::And, X::Len(0), l(15))), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-170141183460469231731687303715884105728, 170141183460469231731687303715884105727)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 64, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(20)), cond: Some(b(Bop::Ne, l(0), l(0))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(3), l(0xffffffff)))), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { pad_bits_before: Some(l(1)), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(22)), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct GS89 {
    #[deku(temp, temp_value = "((f1.len() as i128)) as u16")]
    pub f0: u16,
    #[deku(bytes = 14, count = "f0")]
    pub f1: Box<[[i128; 2]]>,
    #[deku(count = "((deku::byte_offset as i128) % 4)")]
    pub f2: Vec<i128>,
}
impl Conv for GS89 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS89 { f1: Conv::fv(&i[0]), f2: Conv::fv(&i[1]) } }
}
pub fn d_GS89() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS89", kind: Kind::Struct { fields: vec![FieldD { temp_value: Some(b(Bop::And, X::Len(1), l(0xffff))), temp: true, hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(14)), lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 128, s: true }), 2)))) }, FieldD { lim: Lim::Count(b(Bop::Rem, X::ByteOff, l(4))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 128, s: true }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "msb")]
pub struct GS90 (
    #[deku(bits = 60, assert = "((*field_0 as i128) <= 76)")]
    pub i64,
    #[deku(pad_bytes_after = "3", until = "|v: &u8| ((*v as i128) == 0)")]
    pub Vec<u8>,
    #[deku(read_all)]
    pub Vec<(u32, u8,)>,
);
impl Conv for GS90 {
    fn tv(&self) -> Val { Val::Rec(vec![self.0.tv(), self.1.tv(), self.2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS90( Conv::fv(&i[0]), Conv::fv(&i[1]), Conv::fv(&i[2]) ) }
}
pub fn d_GS90() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS90", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(60)), assert: Some(b(Bop::Le, X::F(0), l(76))), hint: Hint::Range(0, 76), ..FieldD::new("field_0", Ty::Int { w: 64, s: true }) }, FieldD { pad_bytes_after: Some(l(3)), lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("field_1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { lim: Lim::All, ..FieldD::new("field_2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 8, s: false }])))) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct GS91 {
    #[deku(map = "custom::map_double")]
    pub f0: u16,
    #[deku(endian = "little", pad_bits_before = "0", map = "custom::map_even")]
    pub f1: u16,
}
impl Conv for GS91 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS91 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_GS91() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS91", kind: Kind::Struct { fields: vec![FieldD { map: Some((Ty::Int { w: 8, s: false }, custom::m_map_double)), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), pad_bits_before: Some(l(0)), map: Some((Ty::Int { w: 16, s: false }, custom::m_map_even)), ..FieldD::new("f1", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct GI93 {
    #[deku(until = "|v: &u8| ((*v as i128) == 0)")]
    pub f0: Vec<u8>,
    #[deku(magic = b"\x67\x40\x7c")]
    pub f1: (i128, i128,),
    #[deku(endian = "big", magic = b"\x35\x7d\xff", map = "custom::map_even")]
    pub f2: u16,
    #[deku(pad_bits_before = "5", until = "|v: &u8| ((*v as i128) == 0)")]
    pub f3: Vec<u8>,
}
impl Conv for GI93 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GI93 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_GI93() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GI93", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { magic: Some(b"\x67\x40\x7c"), ..FieldD::new("f1", Ty::Tup(vec![Ty::Int { w: 128, s: true }, Ty::Int { w: 128, s: true }])) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), magic: Some(b"\x35\x7d\xff"), map: Some((Ty::Int { w: 16, s: false }, custom::m_map_even)), ..FieldD::new("f2", Ty::Int { w: 16, s: false }) }, FieldD { pad_bits_before: Some(l(5)), lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct GS92 (
    #[deku(pad_bits_before = "2", pad_bytes_before = "2", pad_bits_after = "3")]
    pub GI93,
);
impl Conv for GS92 {
    fn tv(&self) -> Val { Val::Rec(vec![self.0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; GS92( Conv::fv(&i[0]) ) }
}
pub fn d_GS92() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "GS92", kind: Kind::Struct { fields: vec![FieldD { pad_bits_before: Some(l(2)), pad_bytes_before: Some(l(2)), pad_bits_after: Some(l(3)), ..FieldD::new("field_0", Ty::Named(d_GI93)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

pub fn entries() -> Vec<Entry> {
    let mut v = vec![];
    v.push(Entry { name: "GE1", tags: &["assert", "bits", "bits_read", "bytes", "bytes_read", "cond", "count", "ctx", "default_variant", "endian", "enum", "magic", "order", "pad", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup", "until", "update"], decl: d_GE1, ops: ops::<GE1>(), deku_id: Some(deku_id::<GE1, u8>), size_bits: None });
    v.push(Entry { name: "GS3", tags: &["assert_eq", "bits", "count", "ctx", "endian", "order", "pad", "temp", "temp_value", "ty_arr", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup", "until"], decl: d_GS3, ops: ops::<GS3>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS6", tags: &["assert", "bits", "bits_read", "cond", "default", "endian", "magic", "map", "order", "skip", "ty_arr", "ty_int", "ty_list", "ty_ptr"], decl: d_GS6, ops: ops::<GS6>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GE7", tags: &["assert", "assert_eq", "bits", "count", "default", "endian", "enum", "id_pat", "off", "order", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_nz", "ty_tup", "until"], decl: d_GE7, ops: ops::<GE7>(), deku_id: Some(deku_id::<GE7, u128>), size_bits: None });
    v.push(Entry { name: "GS8", tags: &["assert", "count", "seek", "ty_int", "ty_list"], decl: d_GS8, ops: ops::<GS8>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GE9", tags: &["cond", "endian", "enum", "order", "pad", "ty_int", "ty_list", "until"], decl: d_GE9, ops: ops::<GE9>(), deku_id: Some(deku_id::<GE9, i8>), size_bits: None });
    v.push(Entry { name: "GS10", tags: &["bits", "endian", "reader", "ty_bool", "ty_int", "ty_list", "ty_nz", "until", "update", "writer"], decl: d_GS10, ops: ops::<GS10>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS11", tags: &["assert", "count", "endian", "off", "order", "ty_bool", "ty_int", "ty_list", "ty_ptr", "ty_tup"], decl: d_GS11, ops: ops::<GS11>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS12", tags: &["assert", "bits", "count", "endian", "order", "pad", "temp", "temp_value", "ty_arr", "ty_int", "ty_list", "ty_ptr"], decl: d_GS12, ops: ops::<GS12>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS13", tags: &["assert", "endian", "order", "reader", "ty_int", "ty_list", "until", "writer"], decl: d_GS13, ops: ops::<GS13>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GE14", tags: &["assert", "bits", "bytes", "bytes_read", "count", "ctx", "default_variant", "endian", "enum", "order", "pad", "reader", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_tup", "until", "update", "writer"], decl: d_GE14, ops: ops::<GE14>(), deku_id: Some(deku_id::<GE14, u128>), size_bits: None });
    v.push(Entry { name: "GS16", tags: &["bits", "cond", "default", "endian", "magic", "map", "order", "read_all", "skip", "ty_int", "ty_list"], decl: d_GS16, ops: ops::<GS16>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GE17", tags: &["assert", "bits", "bits_read", "count", "ctx", "default", "endian", "enum", "id_pat", "magic", "map", "off", "order", "pad", "skip", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_ptr", "until"], decl: d_GE17, ops: ops::<GE17>(), deku_id: Some(deku_id::<GE17, u8>), size_bits: None });
    v.push(Entry { name: "GS19", tags: &["assert_eq", "bits", "bytes", "cond", "count", "endian", "magic", "map", "pad", "skip", "temp", "temp_value", "ty_arr", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "until"], decl: d_GS19, ops: ops::<GS19>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS21", tags: &["endian", "ty_int", "ty_list", "until"], decl: d_GS21, ops: ops::<GS21>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS22", tags: &["bits", "order", "pad", "size", "ty_bool", "ty_int"], decl: d_GS22, ops: ops::<GS22>(), deku_id: None, size_bits: Some((<GS22 as DekuSize>::SIZE_BITS, 90)) });
    v.push(Entry { name: "GE23", tags: &["assert", "assert_eq", "bits", "bits_read", "bytes", "cond", "count", "ctx", "default", "endian", "enum", "id_pat", "magic", "map", "order", "pad", "reader", "skip", "temp", "temp_value", "ty_arr", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "update", "writer"], decl: d_GE23, ops: ops::<GE23>(), deku_id: Some(deku_id::<GE23, i32>), size_bits: None });
    v.push(Entry { name: "GS26", tags: &["bits", "cond", "count", "default", "endian", "magic", "pad", "temp", "temp_value", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named"], decl: d_GS26, ops: ops::<GS26>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GE28", tags: &["bits", "bytes", "endian", "enum", "order", "pad", "size", "ty_int"], decl: d_GE28, ops: ops::<GE28>(), deku_id: Some(deku_id::<GE28, u32>), size_bits: Some((<GE28 as DekuSize>::SIZE_BITS, 92)) });
    v.push(Entry { name: "GS29", tags: &["assert", "bits", "cond", "default_variant", "endian", "magic", "map", "pad", "reader", "seek", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_tup", "until", "update", "writer"], decl: d_GS29, ops: ops::<GS29>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS31", tags: &["assert", "bytes", "cond", "default", "endian", "order", "pad", "skip", "ty_arr", "ty_int", "ty_list", "until", "update"], decl: d_GS31, ops: ops::<GS31>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS32", tags: &["bits", "count", "endian", "order", "read_all", "ty_int", "ty_list", "ty_ptr", "until"], decl: d_GS32, ops: ops::<GS32>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GE33", tags: &["assert", "bits", "bytes", "cond", "count", "default", "endian", "enum", "pad", "reader", "skip", "ty_int", "ty_list", "ty_ptr", "ty_tup", "until", "writer"], decl: d_GE33, ops: ops::<GE33>(), deku_id: Some(deku_id::<GE33, i16>), size_bits: None });
    v.push(Entry { name: "GE34", tags: &["assert", "bits", "bits_read", "cond", "count", "ctx", "default", "endian", "enum", "id_pat", "magic", "map", "order", "pad", "skip", "temp", "temp_value", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup", "until"], decl: d_GE34, ops: ops::<GE34>(), deku_id: Some(deku_id::<GE34, u64>), size_bits: None });
    v.push(Entry { name: "GS38", tags: &["bits", "cond", "default", "endian", "magic", "map", "order", "pad", "reader", "seek", "skip", "ty_int", "ty_list", "until", "writer"], decl: d_GS38, ops: ops::<GS38>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS39", tags: &["assert", "cond", "default", "endian", "magic", "pad", "size", "ty_int"], decl: d_GS39, ops: ops::<GS39>(), deku_id: None, size_bits: Some((<GS39 as DekuSize>::SIZE_BITS, 27)) });
    v.push(Entry { name: "GS40", tags: &["bits", "endian", "magic", "order", "pad", "seek", "ty_arr", "ty_int"], decl: d_GS40, ops: ops::<GS40>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS41", tags: &["assert", "endian", "order", "size", "ty_int"], decl: d_GS41, ops: ops::<GS41>(), deku_id: None, size_bits: Some((<GS41 as DekuSize>::SIZE_BITS, 64)) });
    v.push(Entry { name: "GS42", tags: &["count", "endian", "pad", "reader", "ty_arr", "ty_int", "ty_list", "ty_ptr", "writer"], decl: d_GS42, ops: ops::<GS42>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS43", tags: &["bytes", "cond", "default", "endian", "order", "pad", "skip", "ty_bool", "ty_int"], decl: d_GS43, ops: ops::<GS43>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GE44", tags: &["bits", "cond", "count", "ctx", "default_variant", "endian", "enum", "magic", "map", "off", "order", "pad", "skip", "temp", "temp_value", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "ty_tup", "until", "update"], decl: d_GE44, ops: ops::<GE44>(), deku_id: Some(deku_id::<GE44, i16>), size_bits: None });
    v.push(Entry { name: "GS46", tags: &["bits", "default", "endian", "magic", "map", "pad", "read_all", "reader", "skip", "ty_bool", "ty_int", "ty_list", "update", "writer"], decl: d_GS46, ops: ops::<GS46>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS47", tags: &["assert_eq", "bits", "endian", "magic", "size", "ty_int"], decl: d_GS47, ops: ops::<GS47>(), deku_id: None, size_bits: Some((<GS47 as DekuSize>::SIZE_BITS, 36)) });
    v.push(Entry { name: "GS48", tags: &["assert", "bits", "count", "endian", "order", "pad", "read_all", "skip", "temp", "temp_value", "ty_bool", "ty_int", "ty_list", "ty_ptr", "until"], decl: d_GS48, ops: ops::<GS48>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS49", tags: &["ctx", "endian", "order", "pad", "ty_int", "ty_named"], decl: d_GS49, ops: ops::<GS49>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GE51", tags: &["bits", "bytes", "count", "endian", "enum", "map", "off", "order", "pad", "ty_int", "ty_list", "ty_ptr", "ty_tup"], decl: d_GE51, ops: ops::<GE51>(), deku_id: Some(deku_id::<GE51, u128>), size_bits: None });
    v.push(Entry { name: "GE52", tags: &["assert", "bits", "cond", "count", "default", "default_variant", "endian", "enum", "pad", "skip", "ty_arr", "ty_int", "ty_list", "ty_nz", "ty_ptr", "ty_tup", "until"], decl: d_GE52, ops: ops::<GE52>(), deku_id: Some(deku_id::<GE52, u8>), size_bits: None });
    v.push(Entry { name: "GS53", tags: &["bits", "bits_read", "endian", "magic", "order", "pad", "read_all", "reader", "ty_int", "ty_list", "ty_ptr", "ty_tup", "writer"], decl: d_GS53, ops: ops::<GS53>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS54", tags: &["bits", "endian", "magic", "pad", "size", "ty_bool"], decl: d_GS54, ops: ops::<GS54>(), deku_id: None, size_bits: Some((<GS54 as DekuSize>::SIZE_BITS, 17)) });
    v.push(Entry { name: "GE55", tags: &["assert", "bytes", "cond", "count", "default", "endian", "enum", "off", "order", "reader", "skip", "ty_arr", "ty_int", "ty_list", "ty_ptr", "update", "writer"], decl: d_GE55, ops: ops::<GE55>(), deku_id: Some(deku_id::<GE55, u8>), size_bits: None });
    v.push(Entry { name: "GS56", tags: &["bits", "endian", "pad", "size", "ty_bool", "ty_int", "ty_tup"], decl: d_GS56, ops: ops::<GS56>(), deku_id: None, size_bits: Some((<GS56 as DekuSize>::SIZE_BITS, 23)) });
    v.push(Entry { name: "GS57", tags: &["endian", "magic", "map", "off", "pad", "reader", "ty_int", "writer"], decl: d_GS57, ops: ops::<GS57>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS58", tags: &["endian", "pad", "ty_int", "ty_list", "until"], decl: d_GS58, ops: ops::<GS58>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS59", tags: &["bits", "endian", "order", "ty_int", "ty_nz"], decl: d_GS59, ops: ops::<GS59>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS60", tags: &["assert", "bits", "count", "endian", "order", "pad", "read_all", "skip", "temp", "temp_value", "ty_arr", "ty_int", "ty_list", "ty_nz", "ty_ptr", "until"], decl: d_GS60, ops: ops::<GS60>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GE61", tags: &["assert_eq", "bits", "count", "default", "endian", "enum", "id_pat", "off", "order", "pad", "skip", "ty_int", "ty_list", "ty_ptr", "until"], decl: d_GE61, ops: ops::<GE61>(), deku_id: Some(deku_id::<GE61, u16>), size_bits: None });
    v.push(Entry { name: "GE62", tags: &["endian", "enum", "magic", "skip", "ty_bool", "ty_int", "ty_ptr"], decl: d_GE62, ops: ops::<GE62>(), deku_id: Some(deku_id::<GE62, u128>), size_bits: None });
    v.push(Entry { name: "GE63", tags: &["assert", "bits", "bytes", "cond", "count", "default", "default_variant", "endian", "enum", "id_pat", "off", "order", "pad", "skip", "ty_arr", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_tup", "until"], decl: d_GE63, ops: ops::<GE63>(), deku_id: Some(deku_id::<GE63, u8>), size_bits: None });
    v.push(Entry { name: "GS65", tags: &["assert", "bits", "bits_read", "cond", "endian", "map", "order", "pad", "skip", "ty_bool", "ty_int", "ty_list", "ty_tup"], decl: d_GS65, ops: ops::<GS65>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS66", tags: &["assert", "bits", "cond", "endian", "off", "order", "pad", "reader", "skip", "ty_arr", "ty_int", "ty_list", "ty_ptr", "until", "writer"], decl: d_GS66, ops: ops::<GS66>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS67", tags: &["ty_int", "ty_list", "until"], decl: d_GS67, ops: ops::<GS67>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS68", tags: &["bits", "count", "endian", "order", "pad", "ty_bool", "ty_int", "ty_list", "ty_nz"], decl: d_GS68, ops: ops::<GS68>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS69", tags: &["assert", "bits", "count", "order", "pad", "read_all", "skip", "temp", "temp_value", "ty_bool", "ty_int", "ty_list", "ty_ptr"], decl: d_GS69, ops: ops::<GS69>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS70", tags: &["assert", "assert_eq", "bits", "count", "ctx", "default_variant", "endian", "map", "order", "pad", "temp", "temp_value", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup", "update"], decl: d_GS70, ops: ops::<GS70>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS72", tags: &["assert", "bits", "cond", "default", "endian", "magic", "order", "pad", "reader", "seek", "skip", "ty_int", "writer"], decl: d_GS72, ops: ops::<GS72>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS73", tags: &["bits", "bits_read", "count", "endian", "order", "pad", "temp", "temp_value", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_ptr", "until"], decl: d_GS73, ops: ops::<GS73>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS75", tags: &["bits", "cond", "count", "endian", "skip", "temp", "temp_value", "ty_bool", "ty_int", "ty_list"], decl: d_GS75, ops: ops::<GS75>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS76", tags: &["bits", "cond", "default", "endian", "magic", "order", "skip", "ty_bool", "ty_int", "ty_list", "until"], decl: d_GS76, ops: ops::<GS76>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GE77", tags: &["assert", "bits", "bytes", "count", "endian", "enum", "magic", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_ptr", "until"], decl: d_GE77, ops: ops::<GE77>(), deku_id: Some(deku_id::<GE77, u64>), size_bits: None });
    v.push(Entry { name: "GS78", tags: &["count", "endian", "skip", "ty_int", "ty_list", "until"], decl: d_GS78, ops: ops::<GS78>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS79", tags: &["bits", "bits_read", "endian", "magic", "order", "ty_bool", "ty_int", "ty_list"], decl: d_GS79, ops: ops::<GS79>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS80", tags: &["bits", "endian", "magic", "pad", "size", "ty_arr", "ty_int"], decl: d_GS80, ops: ops::<GS80>(), deku_id: None, size_bits: Some((<GS80 as DekuSize>::SIZE_BITS, 87)) });
    v.push(Entry { name: "GS81", tags: &["cond", "default", "endian", "off", "pad", "reader", "skip", "ty_int", "writer"], decl: d_GS81, ops: ops::<GS81>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS82", tags: &["assert", "bits", "bits_read", "bytes_read", "cond", "default", "default_variant", "endian", "magic", "map", "off", "order", "pad", "reader", "skip", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "ty_tup", "until", "writer"], decl: d_GS82, ops: ops::<GS82>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GE85", tags: &["bits", "bytes", "bytes_read", "cond", "count", "default", "endian", "enum", "id_pat", "magic", "map", "order", "pad", "skip", "ty_arr", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup", "until"], decl: d_GE85, ops: ops::<GE85>(), deku_id: Some(deku_id::<GE85, u16>), size_bits: None });
    v.push(Entry { name: "GE87", tags: &["assert", "assert_eq", "bits", "cond", "count", "default", "default_variant", "endian", "enum", "id_pat", "magic", "map", "off", "order", "pad", "reader", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup", "until", "update", "writer"], decl: d_GE87, ops: ops::<GE87>(), deku_id: Some(deku_id::<GE87, u64>), size_bits: None });
    v.push(Entry { name: "GS89", tags: &["bytes", "count", "endian", "off", "temp", "temp_value", "ty_arr", "ty_int", "ty_list", "ty_ptr"], decl: d_GS89, ops: ops::<GS89>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS90", tags: &["assert", "bits", "order", "pad", "read_all", "ty_int", "ty_list", "ty_tup", "until"], decl: d_GS90, ops: ops::<GS90>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS91", tags: &["endian", "map", "order", "pad", "ty_int"], decl: d_GS91, ops: ops::<GS91>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "GS92", tags: &["endian", "magic", "map", "pad", "ty_int", "ty_list", "ty_named", "ty_tup", "until"], decl: d_GS92, ops: ops::<GS92>(), deku_id: None, size_bits: None });
    v
}
