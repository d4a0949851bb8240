// @generated by gen_zoo.py
#![allow(clippy::all, unused_parens, unused_variables, dead_code, non_camel_case_types, non_snake_case, unused_imports, unused_mut)]
use deku::prelude::*;
use std::sync::OnceLock;
use vcore::custom;
use vcore::model::*;
use vcore::ops::{deku_id, ops, Entry};
use vcore::val::{Conv, Val};

#[derive(DekuRead, DekuWrite)]
pub struct FS3 {
    #[deku(bits = 8, update = "(self.f1.len() as i128)")]
    pub f0: u8,
    #[deku(bits = "10", count = "f0")]
    pub f1: Vec<i128>,
}
impl Conv for FS3 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS3 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_FS3() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS3", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(8)), update: Some(X::Len(1)), hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(10)), lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 128, s: true }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "i8")]
pub enum FE4 {
    #[deku(id = 31)]
    V0 { g0: u64, g1: u8, #[deku(bits = 2, count = "((*g1 as i128) + 0)")] g2: Vec<u32>, #[deku(bits = 20)] g3: i64, #[deku(bits = "4")] g4: bool },
    #[deku(id = "55")]
    V1 { #[deku(skip, default = "(119) as u8")] g0: u8, #[deku(bits = "1")] g1: bool, #[deku(skip, default = "(137) as u8")] g2: u8, #[deku(until = "|v: &i8| ((*v as i128) == 1)")] g3: Vec<i8> },
}
impl Conv for FE4 {
    fn tv(&self) -> Val { match self { FE4::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), FE4::V1 { g0, g1, g2, g3 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE4::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(1, i) => { let _ = i; FE4::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_FE4() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE4", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(31)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 64, s: false }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), lim: Lim::Count(b(Bop::Add, X::F(1), l(0))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(20)), ..FieldD::new("g3", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(4)), ..FieldD::new("g4", Ty::Bool) }] }, VariantD { name: "V1", id: Some(Val::N(55)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(119), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(1)), ..FieldD::new("g1", Ty::Bool) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(137), l(0xff)))), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct FS2 {
    pub f0: FS3,
    pub f1: u8,
    #[deku(pad_bytes_after = "1", until = "|v: &u8| ((*v as i128) == 1)")]
    pub f2: Vec<u8>,
    pub f3: FE4,
    pub f4: u16,
    #[deku(bytes = 5, count = "f4")]
    pub f5: Vec<u64>,
}
impl Conv for FS2 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS2 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_FS2() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS2", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Named(d_FS3)) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(l(1)), lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("f3", Ty::Named(d_FE4)) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("f4", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(5)), lim: Lim::Count(X::F(4)), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct FS5 {
    #[deku(skip, default = "(133) as u8")]
    pub f0: u8,
    pub f1: isize,
}
impl Conv for FS5 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS5 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_FS5() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS5", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(133), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 64, s: true }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct FS1 {
    pub f0: std::num::NonZeroU128,
    pub f1: FS2,
    pub f2: u32,
    #[deku(bytes_read = "((*f2 as i128) * 8)")]
    pub f3: Vec<FS5>,
    #[deku(bits = 8)]
    pub f4: u32,
    #[deku(count = "((*f4 as i128) + 1)")]
    pub f5: Vec<i16>,
    #[deku(update = "(self.f7.len() as i128)")]
    pub f6: u32,
    #[deku(count = "f6")]
    pub f7: Vec<u16>,
}
impl Conv for FS1 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS1 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]) } }
}
pub fn d_FS1() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS1", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::NonZero { w: 128, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Named(d_FS2)) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(2), l(8))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Named(d_FS5)))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(4), l(1))), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }, FieldD { update: Some(X::Len(7)), hint: Hint::Range(0, 9), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(6)), ..FieldD::new("f7", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct FS8 {
    #[deku(update = "(self.f1.len() as i128)")]
    pub f0: u8,
    #[deku(bytes = 3, count = "f0")]
    pub f1: Vec<isize>,
    #[deku(assert = "(((*f2 as i128) >= 3) && ((*f2 as i128) <= 90))")]
    pub f2: i32,
    pub f3: u8,
    #[deku(count = "((*f3 as i128) + 0)")]
    pub f4: Vec<i64>,
    pub f5: isize,
}
impl Conv for FS8 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS8 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_FS8() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS8", kind: Kind::Struct { fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 3), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(2), l(3)), b(Bop::Le, X::F(2), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(3), l(0))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { ..FieldD::new("f5", Ty::Int { w: 64, s: true }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct FS9 {
    pub f0: u8,
    #[deku(count = "f0")]
    pub f1: Vec<std::num::NonZeroU32>,
    #[deku(skip, default = "(70) as u8")]
    pub f2: u8,
    #[deku(until = "|v: &i8| ((*v as i128) == 0)")]
    pub f3: Vec<i8>,
    #[deku(until = "|v: &u8| ((*v as i128) == 0)")]
    pub f4: Vec<u8>,
    #[deku(bits = "4")]
    pub f5: u8,
}
impl Conv for FS9 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS9 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_FS9() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS9", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::NonZero { w: 32, s: false }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(70), l(0xff)))), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(4)), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct FS7 {
    #[deku(bits = "1")]
    pub f0: u8,
    #[deku(bits = 5)]
    pub f1: u8,
    #[deku(count = "f1")]
    pub f2: Box<[FS8]>,
    #[deku(update = "(self.f4.len() as i128)")]
    pub f3: u8,
    #[deku(count = "f3")]
    pub f4: std::sync::Arc<[FS9]>,
    pub f5: std::num::NonZeroI128,
    pub f6: u16,
    #[deku(count = "f6", pad_bytes_after = "1")]
    pub f7: Vec<(u32, u8,)>,
    #[deku(update = "(self.f9.len() as i128)")]
    pub f8: u8,
    #[deku(count = "f8", magic = b"\xb0\x54")]
    pub f9: std::sync::Arc<[bool]>,
}
impl Conv for FS7 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv(), self.f9.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS7 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]), f9: Conv::fv(&i[9]) } }
}
pub fn d_FS7() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS7", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(1)), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 3), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Named(d_FS8)))) }, FieldD { update: Some(X::Len(4)), hint: Hint::Range(0, 3), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Named(d_FS9)))) }, FieldD { ..FieldD::new("f5", Ty::NonZero { w: 128, s: true }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("f6", Ty::Int { w: 16, s: false }) }, FieldD { pad_bytes_after: Some(l(1)), lim: Lim::Count(X::F(6)), ..FieldD::new("f7", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { update: Some(X::Len(9)), hint: Hint::Range(0, 9), ..FieldD::new("f8", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(8)), magic: Some(b"\xb0\x54"), ..FieldD::new("f9", Ty::Vec(Box::new(Ty::Bool))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct FS6 {
    pub f0: u16,
    #[deku(count = "f0", pad_bits_after = "2")]
    pub f1: std::sync::Arc<[FS7]>,
    pub f2: usize,
    #[deku(bytes = 3, cond = "(((*f2 as i128) & 3) >= 1)")]
    pub f3: Option<u64>,
    pub f4: u16,
    #[deku(count = "f4")]
    pub f5: Box<[[f64; 2]]>,
}
impl Conv for FS6 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS6 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_FS6() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS6", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { pad_bits_after: Some(l(2)), lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Named(d_FS7)))) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(3)), cond: Some(b(Bop::Ge, b(Bop::And, X::F(2), l(3)), l(1))), ..FieldD::new("f3", Ty::Opt(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("f4", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(4)), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Float { w: 64 }), 2)))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(bit_order = "lsb")]
pub struct FS10 {
    #[deku(skip, default = "(51) as u8")]
    pub f0: u8,
    pub f1: i16,
}
impl Conv for FS10 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS10 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_FS10() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS10", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(51), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 16, s: true }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct FS13 {
    #[deku(skip, default = "(198) as u8")]
    pub f0: u8,
    pub f1: u8,
    #[deku(bits = 26, count = "((*f1 as i128) + 1)")]
    pub f2: Vec<(usize, u8,)>,
    #[deku(bytes = "4")]
    pub f3: u32,
}
impl Conv for FS13 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS13 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_FS13() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS13", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(198), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(26)), lim: Lim::Count(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 64, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { bytes: Some(l(4)), ..FieldD::new("f3", Ty::Int { w: 32, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct FS14 {
    pub f0: u16,
    #[deku(until = "|v: &i8| ((*v as i128) == 1)", magic = b"\x89\x26")]
    pub f1: Vec<i8>,
}
impl Conv for FS14 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS14 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_FS14() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS14", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), magic: Some(b"\x89\x26"), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct FS12 {
    #[deku(update = "(self.f1.len() as i128)")]
    pub f0: u8,
    #[deku(count = "((*f0 as i128) + 1)")]
    pub f1: std::sync::Arc<[i32]>,
    #[deku(bits = "64")]
    pub f2: std::num::NonZeroU64,
    pub f3: u128,
    #[deku(until = "|v: &u8| ((*v as i128) == 0)")]
    pub f4: Vec<u8>,
    pub f5: FS13,
    #[deku(bits = 8)]
    pub f6: u8,
    #[deku(count = "f6")]
    pub f7: std::sync::Arc<[FS14]>,
}
impl Conv for FS12 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS12 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]) } }
}
pub fn d_FS12() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS12", kind: Kind::Struct { fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(0), l(1))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 32, s: true }))) }, FieldD { bits: Some(l(64)), ..FieldD::new("f2", Ty::NonZero { w: 64, s: false }) }, FieldD { ..FieldD::new("f3", Ty::Int { w: 128, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("f5", Ty::Named(d_FS13)) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(6)), ..FieldD::new("f7", Ty::Vec(Box::new(Ty::Named(d_FS14)))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct FS11 {
    #[deku(bits = "4")]
    pub f0: u8,
    #[deku(update = "(self.f2.len() as i128)")]
    pub f1: u16,
    #[deku(count = "f1")]
    pub f2: Vec<FS12>,
    pub f3: [[i32; 2]; 2],
    #[deku(pad_bytes_before = "2")]
    pub f4: (u16, u16,),
}
impl Conv for FS11 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS11 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_FS11() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS11", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(X::Len(2)), hint: Hint::Range(0, 6), ..FieldD::new("f1", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Named(d_FS12)))) }, FieldD { ..FieldD::new("f3", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: true }), 2)), 2)) }, FieldD { pad_bytes_before: Some(l(2)), ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Int { w: 16, s: false }])) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct FS16 {
    #[deku(bits = "4")]
    pub f0: u8,
    #[deku(bytes_read = "((*f0 as i128) * 8)")]
    pub f1: Vec<f64>,
    pub f2: f64,
    #[deku(skip, default = "(51) as u8")]
    pub f3: u8,
    pub f4: isize,
}
impl Conv for FS16 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS16 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_FS16() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS16", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Float { w: 64 }))) }, FieldD { ..FieldD::new("f2", Ty::Float { w: 64 }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(51), l(0xff)))), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(magic = b"\xd9\x7a", endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u16")]
pub enum FE17 {
    #[deku(id = "53")]
    V0 { g0: i32 },
    #[deku(id_pat = "2573..=13476")]
    P { g0: u16, g1: f64, #[deku(bits = "1")] g2: bool },
}
impl Conv for FE17 {
    fn tv(&self) -> Val { match self { FE17::V0 { g0 } => Val::Var(0, vec![g0.tv()]), FE17::P { g0, g1, g2 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE17::V0 { g0: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; FE17::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_FE17() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE17", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(53)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: true }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(2573, 13476)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Float { w: 64 }) }, FieldD { bits: Some(l(1)), ..FieldD::new("g2", Ty::Bool) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: Some(b"\xd9\x7a"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", id_type = "u8", bits = 8)]
pub enum FE15 {
    #[deku(id = "10")]
    V0 { #[deku(bits = 15)] g0: [[u32; 2]; 2], #[deku(bits = 12, pad_bits_after = "3")] g1: i16, #[deku(update = "(g3.len() as i128)")] g2: u8, #[deku(bits = "4", count = "g2")] g3: Vec<(bool, u8,)>, #[deku(pad_bits_after = "1")] g4: FS16, #[deku(magic = b"\xfd")] g5: [[u8; 2]; 2], g6: bool },
    #[deku(id = 4)]
    V1 { #[deku(bits = "1")] g0: [[i8; 2]; 2], g1: FE17, #[deku(bits = 3)] g2: u8, #[deku(bits = 12)] g3: u16 },
}
impl Conv for FE15 {
    fn tv(&self) -> Val { match self { FE15::V0 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), FE15::V1 { g0, g1, g2, g3 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE15::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(1, i) => { let _ = i; FE15::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_FE15() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE15", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(8), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(10)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(15)), ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)), 2)) }, FieldD { bits: Some(l(12)), pad_bits_after: Some(l(3)), ..FieldD::new("g1", Ty::Int { w: 16, s: true }) }, FieldD { update: Some(X::Len(3)), hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Bool, Ty::Int { w: 8, s: false }])))) }, FieldD { pad_bits_after: Some(l(1)), ..FieldD::new("g4", Ty::Named(d_FS16)) }, FieldD { magic: Some(b"\xfd"), ..FieldD::new("g5", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)), 2)) }, FieldD { ..FieldD::new("g6", Ty::Bool) }] }, VariantD { name: "V1", id: Some(Val::N(4)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(1)), ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: true }), 2)), 2)) }, FieldD { ..FieldD::new("g1", Ty::Named(d_FE17)) }, FieldD { bits: Some(l(3)), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(12)), ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct FS18 {
    #[deku(bits = 2)]
    pub f0: i8,
}
impl Conv for FS18 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS18 { f0: Conv::fv(&i[0]) } }
}
pub fn d_FS18() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS18", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(2)), ..FieldD::new("f0", Ty::Int { w: 8, s: true }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\x4b\x2e\xd3", bit_order = "order", ctx = "order: deku::ctx::Order")]
pub struct FS20 {
    #[deku(bits = 5)]
    pub f0: u8,
    #[deku(bits = "112", bytes_read = "((*f0 as i128) * 14)", magic = b"\x92\x90")]
    pub f1: Vec<[u128; 2]>,
    pub f2: u32,
}
impl Conv for FS20 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS20 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_FS20() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS20", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(112)), lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(14))), magic: Some(b"\x92\x90"), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 128, s: false }), 2)))) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Ctx(0)), magic: Some(b"\x4b\x2e\xd3"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "order", ctx = "order: deku::ctx::Order", id_type = "u8")]
pub enum FE21 {
    #[deku(id = "43")]
    V0 { #[deku(bits = "4")] g0: u32, #[deku(bits_read = "((*g0 as i128) * 8)")] g1: Vec<u8>, #[deku(bits = 8)] g2: u8, #[deku(bits_read = "((*g2 as i128) * 64)")] g3: Vec<u64>, #[deku(bits = "4")] g4: u8, #[deku(bits = "40", count = "g4", magic = b"\x83\x4b\xa0")] g5: std::sync::Arc<[isize]>, #[deku(bits = 8)] g6: u8, #[deku(bits_read = "((*g6 as i128) * 32)", pad_bytes_after = "1")] g7: Vec<i32> },
    #[deku(id_pat = "39..=116")]
    P { g0: u8, g1: bool, #[deku(bits = 2)] g2: [u8; 3], g3: [[usize; 2]; 2], #[deku(skip, default = "(111) as u8")] g4: u8, #[deku(skip, default = "(71) as u8")] g5: u8, g6: usize },
}
impl Conv for FE21 {
    fn tv(&self) -> Val { match self { FE21::V0 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), FE21::P { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE21::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(1, i) => { let _ = i; FE21::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, _ => panic!("shape") } }
}
pub fn d_FE21() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE21", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(43)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(2), l(64))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(40)), lim: Lim::Count(X::F(4)), magic: Some(b"\x83\x4b\xa0"), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g6", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(l(1)), lim: Lim::Bits(b(Bop::Mul, X::F(6), l(32))), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Int { w: 32, s: true }))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(39, 116)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Bool) }, FieldD { bits: Some(l(2)), ..FieldD::new("g2", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { ..FieldD::new("g3", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)), 2)) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(111), l(0xff)))), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(71), l(0xff)))), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g6", Ty::Int { w: 64, s: false }) }] }] }, endian: None, order: Some(OrderSpec::Ctx(0)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb", id_type = "u8", bits = 5)]
pub enum FE19 {
    #[deku(id = "3")]
    V0 { #[deku(bits = 72)] g0: i128, g1: [u128; 2], #[deku(skip, default = "(191) as u8")] g2: u8, g3: FS20 },
    #[deku(id = 2)]
    V1 { #[deku(bits = 48)] g0: i64, g1: bool, #[deku(bits = 23)] g2: u32 },
    #[deku(id = "10")]
    V2 { #[deku(bits = "4")] g0: u32, #[deku(count = "g0", pad_bits_after = "1")] g1: Vec<FE21> },
    #[deku(id = 7)]
    V3 { g0: f64, #[deku(skip, default = "(56) as u8")] g1: u8, #[deku(assert = "(((*g2 as i128) >= 3) && ((*g2 as i128) <= 90))")] g2: u32 },
    #[deku(id_pat = "_")]
    P { g0: u8, #[deku(bits = 5)] g1: u16, #[deku(count = "((*g1 as i128) + 2)")] g2: Vec<u32>, #[deku(bits = 5, update = "(g4.len() as i128)")] g3: u8, #[deku(bytes_read = "((*g3 as i128) * 4)")] g4: std::sync::Arc<[f32]>, #[deku(bits = "1", pad_bits_before = "3", magic = b"\x0d\xf2\x16")] g5: bool, #[deku(bits = 5, update = "(g7.len() as i128)")] g6: u16, #[deku(count = "((*g6 as i128) + 2)")] g7: Vec<(bool, u8,)>, #[deku(bits = 29, magic = b"\x77")] g8: u32 },
}
impl Conv for FE19 {
    fn tv(&self) -> Val { match self { FE19::V0 { g0, g1, g2, g3 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), FE19::V1 { g0, g1, g2 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv()]), FE19::V2 { g0, g1 } => Val::Var(2, vec![g0.tv(), g1.tv()]), FE19::V3 { g0, g1, g2 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv()]), FE19::P { g0, g1, g2, g3, g4, g5, g6, g7, g8 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE19::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(1, i) => { let _ = i; FE19::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(2, i) => { let _ = i; FE19::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; FE19::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(4, i) => { let _ = i; FE19::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]) } }, _ => panic!("shape") } }
}
pub fn d_FE19() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE19", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(5), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(72)), ..FieldD::new("g0", Ty::Int { w: 128, s: true }) }, FieldD { ..FieldD::new("g1", Ty::Arr(Box::new(Ty::Int { w: 128, s: false }), 2)) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(191), l(0xff)))), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g3", Ty::Named(d_FS20)) }] }, VariantD { name: "V1", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(48)), ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("g1", Ty::Bool) }, FieldD { bits: Some(l(23)), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "V2", id: Some(Val::N(10)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { pad_bits_after: Some(l(1)), lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Named(d_FE21)))) }] }, VariantD { name: "V3", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Float { w: 64 }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(56), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(2), l(3)), b(Bop::Le, X::F(2), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(1), l(2))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(5)), update: Some(X::Len(4)), hint: Hint::Range(0, 9), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(3), l(4))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Float { w: 32 }))) }, FieldD { bits: Some(l(1)), pad_bits_before: Some(l(3)), magic: Some(b"\x0d\xf2\x16"), ..FieldD::new("g5", Ty::Bool) }, FieldD { bits: Some(l(5)), update: Some(X::Len(7)), hint: Hint::Range(0, 9), ..FieldD::new("g6", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(6), l(2))), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Bool, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(29)), magic: Some(b"\x77"), ..FieldD::new("g8", Ty::Int { w: 32, s: false }) }] }] }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "i8", bits = 3)]
pub enum FE23 {
    #[deku(id = "0")]
    V0 { g0: u8, #[deku(bits_read = "((*g0 as i128) * 72)", pad_bits_after = "3")] g1: Vec<(isize, u8,)>, g2: u32, #[deku(bits = 18, bits_read = "((*g2 as i128) * 18)")] g3: std::sync::Arc<[usize]>, #[deku(bytes = 3)] g4: Box<u64>, #[deku(magic = b"\x80\xfc\xa5")] g5: u16 },
    #[deku(id = 3)]
    V1 { #[deku(bits = 8)] g0: isize },
    #[deku(id_pat = "_")]
    P { g0: i8, g1: Box<f32>, g2: u8, #[deku(bytes_read = "((*g2 as i128) * 1)")] g3: Box<[i8]> },
}
impl Conv for FE23 {
    fn tv(&self) -> Val { match self { FE23::V0 { g0, g1, g2, g3, g4, g5 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), FE23::V1 { g0 } => Val::Var(1, vec![g0.tv()]), FE23::P { g0, g1, g2, g3 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE23::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(1, i) => { let _ = i; FE23::V1 { g0: Conv::fv(&i[0]) } }, Val::Var(2, i) => { let _ = i; FE23::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_FE23() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE23", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: Some(3), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(72))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 64, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(18)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(18))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { bytes: Some(l(3)), ..FieldD::new("g4", Ty::Int { w: 64, s: false }) }, FieldD { magic: Some(b"\x80\xfc\xa5"), ..FieldD::new("g5", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }, FieldD { ..FieldD::new("g1", Ty::Float { w: 32 }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(2), l(1))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct FS24 {
    #[deku(bits = 6)]
    pub f0: u8,
}
impl Conv for FS24 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS24 { f0: Conv::fv(&i[0]) } }
}
pub fn d_FS24() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS24", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(6)), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct FS22 {
    pub f0: u8,
    #[deku(count = "f0", pad_bytes_before = "2")]
    pub f1: Vec<FE23>,
    pub f2: FS24,
}
impl Conv for FS22 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS22 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_FS22() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS22", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 9), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(2)), lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Named(d_FE23)))) }, FieldD { ..FieldD::new("f2", Ty::Named(d_FS24)) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "order", ctx = "order: deku::ctx::Order")]
pub struct FS26 {
    #[deku(bits = 8)]
    pub f0: u8,
    #[deku(count = "f0")]
    pub f1: Box<[u8]>,
}
impl Conv for FS26 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS26 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_FS26() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS26", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: Some(OrderSpec::Ctx(0)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\xce\x10\xf5\x3d", bit_order = "lsb")]
pub struct FS25 {
    pub f0: isize,
    #[deku(bits = 24)]
    pub f1: (i32, i32,),
    #[deku(bits = 8)]
    pub f2: u8,
    #[deku(count = "((*f2 as i128) + 1)")]
    pub f3: Vec<FS26>,
    #[deku(pad_bits_before = "1")]
    pub f4: u8,
    #[deku(bits = 2)]
    pub f5: bool,
    pub f6: u32,
    #[deku(read_all)]
    pub f7: Vec<[usize; 2]>,
}
impl Conv for FS25 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS25 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]) } }
}
pub fn d_FS25() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS25", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(24)), ..FieldD::new("f1", Ty::Tup(vec![Ty::Int { w: 32, s: true }, Ty::Int { w: 32, s: true }])) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(2), l(1))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Named(d_FS26)))) }, FieldD { pad_bits_before: Some(l(1)), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), ..FieldD::new("f5", Ty::Bool) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::All, ..FieldD::new("f7", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)))) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: Some(b"\xce\x10\xf5\x3d"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u32")]
pub enum FE28 {
    #[deku(id = "14")]
    V0 { #[deku(bits = 98)] g0: u128, #[deku(bits = 2)] g1: i64, #[deku(bits = 59, pad_bits_before = "2")] g2: u128, #[deku(bits = 5)] g3: u8, #[deku(bits_read = "((*g3 as i128) * 64)")] g4: Vec<u64> },
    #[deku(id = 15)]
    V1 { g0: Option<i16>, #[deku(bits = 116)] g1: i128 },
    #[deku(id = "52")]
    V2 { #[deku(bits = "4")] g0: u32, #[deku(bits = 3, count = "((*g0 as i128) + 0)")] g1: Vec<u8>, #[deku(bits = 2)] g2: bool, g3: u8, #[deku(bits = "7")] g4: (u8, u8,), #[deku(update = "(g6.len() as i128)")] g5: u16, #[deku(bits = 8, count = "g5", pad_bytes_before = "2")] g6: Vec<i128>, g7: f64 },
    #[deku(id = 50)]
    V3 { #[deku(update = "(g1.len() as i128)")] g0: u8, #[deku(bytes = 5, count = "g0")] g1: Box<[[i64; 2]]>, #[deku(skip, default = "(126) as u8")] g2: u8, #[deku(skip, default = "(31) as u8")] g3: u8, g4: usize, #[deku(bits = "4")] g5: u16, #[deku(bits = "22", bits_read = "((*g5 as i128) * 22)", pad_bytes_after = "1")] g6: Vec<u32> },
    #[deku(id_pat = "_")]
    P { g0: u32, #[deku(update = "(g2.len() as i128)")] g1: u16, #[deku(bits = 24, count = "g1")] g2: std::sync::Arc<[(isize, u8,)]>, #[deku(bytes = 5, magic = b"\xf8\x26")] g3: usize, #[deku(bytes = "7", magic = b"\x7c\xb6")] g4: u64, g5: u16, #[deku(bits = "4", count = "((*g5 as i128) + 2)")] g6: Vec<bool>, g7: f64 },
}
impl Conv for FE28 {
    fn tv(&self) -> Val { match self { FE28::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), FE28::V1 { g0, g1 } => Val::Var(1, vec![g0.tv(), g1.tv()]), FE28::V2 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), FE28::V3 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), FE28::P { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE28::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(1, i) => { let _ = i; FE28::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(2, i) => { let _ = i; FE28::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(3, i) => { let _ = i; FE28::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(4, i) => { let _ = i; FE28::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, _ => panic!("shape") } }
}
pub fn d_FE28() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE28", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(14)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(98)), ..FieldD::new("g0", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(2)), ..FieldD::new("g1", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(59)), pad_bits_before: Some(l(2)), ..FieldD::new("g2", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 3), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(3), l(64))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }] }, VariantD { name: "V1", id: Some(Val::N(15)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Opt(Box::new(Ty::Int { w: 16, s: true }))) }, FieldD { bits: Some(l(116)), ..FieldD::new("g1", Ty::Int { w: 128, s: true }) }] }, VariantD { name: "V2", id: Some(Val::N(52)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(3)), lim: Lim::Count(b(Bop::Add, X::F(0), l(0))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(2)), ..FieldD::new("g2", Ty::Bool) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("g4", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])) }, FieldD { update: Some(X::Len(6)), hint: Hint::Range(0, 3), ..FieldD::new("g5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(8)), pad_bytes_before: Some(l(2)), lim: Lim::Count(X::F(5)), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Int { w: 128, s: true }))) }, FieldD { ..FieldD::new("g7", Ty::Float { w: 64 }) }] }, VariantD { name: "V3", id: Some(Val::N(50)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(5)), lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(126), l(0xff)))), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(31), l(0xff)))), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g4", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(22)), pad_bytes_after: Some(l(1)), lim: Lim::Bits(b(Bop::Mul, X::F(5), l(22))), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { update: Some(X::Len(2)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(24)), lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 64, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { bytes: Some(l(5)), magic: Some(b"\xf8\x26"), ..FieldD::new("g3", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(7)), magic: Some(b"\x7c\xb6"), ..FieldD::new("g4", Ty::Int { w: 64, s: false }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(4)), lim: Lim::Count(b(Bop::Add, X::F(5), l(2))), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { ..FieldD::new("g7", Ty::Float { w: 64 }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u32", id_endian = "little")]
pub enum FE29 {
    #[deku(id = "38")]
    V0 { #[deku(magic = b"\x42\xec\xa6")] g0: f32, g1: u16 },
    #[deku(id = 11)]
    V1 { #[deku(bits = 8)] g0: std::num::NonZeroU32, g1: bool, g2: i64, #[deku(skip, default = "(106) as u8")] g3: u8, #[deku(pad_bytes_before = "2", skip, default = "(159) as u8")] g4: u8, #[deku(skip, default = "(41) as u8")] g5: u8 },
    #[deku(id = "6")]
    V2 { g0: bool, g1: u32, #[deku(count = "g1")] g2: std::sync::Arc<[u32]>, g3: u16 },
    #[deku(id = 20)]
    V3 { #[deku(skip, default = "(77) as u8")] g0: u8, g1: u32, #[deku(count = "g1")] g2: Box<[u8]> },
    #[deku(id_pat = "_")]
    P { g0: u32, g1: i8, g2: [[std::num::NonZeroI8; 2]; 2], #[deku(bits = 8)] g3: u16, #[deku(bits = 48, bits_read = "((*g3 as i128) * 48)")] g4: Vec<std::num::NonZeroI64>, #[deku(bits = "4")] g5: u8 },
}
impl Conv for FE29 {
    fn tv(&self) -> Val { match self { FE29::V0 { g0, g1 } => Val::Var(0, vec![g0.tv(), g1.tv()]), FE29::V1 { g0, g1, g2, g3, g4, g5 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), FE29::V2 { g0, g1, g2, g3 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), FE29::V3 { g0, g1, g2 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv()]), FE29::P { g0, g1, g2, g3, g4, g5 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE29::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(1, i) => { let _ = i; FE29::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(2, i) => { let _ = i; FE29::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(3, i) => { let _ = i; FE29::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(4, i) => { let _ = i; FE29::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, _ => panic!("shape") } }
}
pub fn d_FE29() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE29", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: Some(EndianSpec::Lit(E::Le)), order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(38)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { magic: Some(b"\x42\xec\xa6"), ..FieldD::new("g0", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(11)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), ..FieldD::new("g0", Ty::NonZero { w: 32, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Bool) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 64, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(106), l(0xff)))), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(2)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(159), l(0xff)))), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(41), l(0xff)))), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V2", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Bool) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V3", id: Some(Val::N(20)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(77), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 8, s: true }) }, FieldD { ..FieldD::new("g2", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::NonZero { w: 8, s: true }), 2)), 2)) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(48)), lim: Lim::Bits(b(Bop::Mul, X::F(3), l(48))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::NonZero { w: 64, s: true }))) }, FieldD { bits: Some(l(4)), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", id_type = "u8")]
pub enum FE27 {
    #[deku(id = "8")]
    V0 { #[deku(skip, default = "(9) as u8")] g0: u8, #[deku(skip, default = "(100) as u8")] g1: u8, #[deku(bits = 8, update = "(g3.len() as i128)")] g2: u8, #[deku(bits = "4", bits_read = "((*g2 as i128) * 4)", pad_bits_after = "2")] g3: Box<[(bool, u8,)]>, #[deku(until = "|v: &u16| ((*v as i128) == 0)")] g4: Vec<u16>, #[deku(bytes = "1")] g5: u16 },
    #[deku(id = 0)]
    V1 { g0: u8, #[deku(count = "((*g0 as i128) + 0)")] g1: Vec<(u32, u8,)>, g2: u32, #[deku(count = "g2")] g3: Vec<FE28>, g4: [FE29; 2], g5: f64, #[deku(bits = 87, magic = b"\x41\x7c")] g6: u128 },
    #[deku(id = "47")]
    V2 { g0: i8, #[deku(bits = "4")] g1: [bool; 3], g2: i32 },
    #[deku(id = 21)]
    V3,
}
impl Conv for FE27 {
    fn tv(&self) -> Val { match self { FE27::V0 { g0, g1, g2, g3, g4, g5 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), FE27::V1 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), FE27::V2 { g0, g1, g2 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv()]), FE27::V3 => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE27::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(1, i) => { let _ = i; FE27::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(2, i) => { let _ = i; FE27::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(3, i) => { let _ = i; FE27::V3 }, _ => panic!("shape") } }
}
pub fn d_FE27() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE27", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(8)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(9), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(100), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(3)), hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), pad_bits_after: Some(l(2)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(4))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Bool, Ty::Int { w: 8, s: false }])))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bytes: Some(l(1)), ..FieldD::new("g5", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(0), l(0))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Named(d_FE28)))) }, FieldD { ..FieldD::new("g4", Ty::Arr(Box::new(Ty::Named(d_FE29)), 2)) }, FieldD { ..FieldD::new("g5", Ty::Float { w: 64 }) }, FieldD { bits: Some(l(87)), magic: Some(b"\x41\x7c"), ..FieldD::new("g6", Ty::Int { w: 128, s: false }) }] }, VariantD { name: "V2", id: Some(Val::N(47)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(4)), ..FieldD::new("g1", Ty::Arr(Box::new(Ty::Bool), 3)) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 32, s: true }) }] }, VariantD { name: "V3", id: Some(Val::N(21)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u8")]
pub enum FE31 {
    #[deku(id = "17")]
    V0 { #[deku(bits = 11)] g0: u16 },
    #[deku(id = 58)]
    V1 { #[deku(bits = 8)] g0: u16, #[deku(bits = "13", bits_read = "((*g0 as i128) * 13)", magic = b"\x40")] g1: Vec<[i32; 2]>, #[deku(bits = 8)] g2: i16 },
    #[deku(id_pat = "_")]
    P { g0: u8, #[deku(bytes = 2, pad_bits_before = "3")] g1: isize, #[deku(magic = b"\xeb\x04\xa3")] g2: u64, #[deku(bits = 5)] g3: u16, #[deku(count = "g3")] g4: Vec<u16> },
}
impl Conv for FE31 {
    fn tv(&self) -> Val { match self { FE31::V0 { g0 } => Val::Var(0, vec![g0.tv()]), FE31::V1 { g0, g1, g2 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv()]), FE31::P { g0, g1, g2, g3, g4 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE31::V0 { g0: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; FE31::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(2, i) => { let _ = i; FE31::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_FE31() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE31", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(17)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(11)), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(58)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(13)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(13))), magic: Some(b"\x40"), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: true }), 2)))) }, FieldD { bits: Some(l(8)), ..FieldD::new("g2", Ty::Int { w: 16, s: true }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(2)), pad_bits_before: Some(l(3)), ..FieldD::new("g1", Ty::Int { w: 64, s: true }) }, FieldD { magic: Some(b"\xeb\x04\xa3"), ..FieldD::new("g2", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct FS30 {
    #[deku(skip, default = "(158) as u8")]
    pub f0: u8,
    pub f1: u8,
    #[deku(bits_read = "((*f1 as i128) * 8)")]
    pub f2: Vec<bool>,
    #[deku(pad_bits_after = "2")]
    pub f3: Box<i16>,
    pub f4: u8,
    #[deku(bytes_read = "((*f4 as i128) * 2)")]
    pub f5: Vec<u16>,
    #[deku(update = "(self.f7.len() as i128)")]
    pub f6: u32,
    #[deku(count = "f6")]
    pub f7: Vec<FE31>,
}
impl Conv for FS30 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS30 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]) } }
}
pub fn d_FS30() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS30", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(158), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(1), l(8))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { pad_bits_after: Some(l(2)), ..FieldD::new("f3", Ty::Int { w: 16, s: true }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(4), l(2))), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { update: Some(X::Len(7)), hint: Hint::Range(0, 6), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(6)), ..FieldD::new("f7", Ty::Vec(Box::new(Ty::Named(d_FE31)))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "msb")]
pub struct FS32 {
    pub f0: isize,
}
impl Conv for FS32 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS32 { f0: Conv::fv(&i[0]) } }
}
pub fn d_FS32() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS32", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u8", bits = 4)]
pub enum FE34 {
    #[deku(id = "3")]
    V0 { #[deku(bytes = 2)] g0: usize, g1: u32, #[deku(count = "((*g1 as i128) + 0)")] g2: Vec<[i64; 2]>, g3: f64 },
}
impl Conv for FE34 {
    fn tv(&self) -> Val { match self { FE34::V0 { g0, g1, g2, g3 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE34::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_FE34() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE34", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(4), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bytes: Some(l(2)), ..FieldD::new("g0", Ty::Int { w: 64, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(1), l(0))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)))) }, FieldD { ..FieldD::new("g3", Ty::Float { w: 64 }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct FS35 {
    #[deku(bits = 45)]
    pub f0: usize,
    #[deku(bits = 8, update = "(self.f2.len() as i128)")]
    pub f1: u8,
    #[deku(bits_read = "((*f1 as i128) * 128)")]
    pub f2: std::sync::Arc<[[f64; 2]]>,
}
impl Conv for FS35 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS35 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_FS35() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS35", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(45)), ..FieldD::new("f0", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(2)), hint: Hint::Range(0, 6), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(1), l(128))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Float { w: 64 }), 2)))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "u8")]
pub enum FE33 {
    #[deku(id = "35")]
    V0 { #[deku(assert = "(((*g0 as i128) >= 3) && ((*g0 as i128) <= 90))")] g0: u32, #[deku(pad_bytes_before = "3")] g1: u16, g2: i32, g3: u32, #[deku(bits = 6, count = "g3")] g4: Vec<u8>, #[deku(bits = 8)] g5: u8, #[deku(bits = "1", bits_read = "((*g5 as i128) * 1)")] g6: std::sync::Arc<[i8]> },
    #[deku(id = 40)]
    V1 { #[deku(until = "|v: &u8| ((*v as i128) == 0)")] g0: Vec<u8>, g1: u32, g2: u16, g3: bool, #[deku(bits = 8)] g4: u8, #[deku(count = "g4")] g5: Box<[FE34]>, g6: FS35 },
    #[deku(id = "47")]
    V2,
    #[deku(id = 10)]
    V3 { #[deku(pad_bits_after = "1", magic = b"\x0e")] g0: u16, g1: u32, #[deku(bits = "1", cond = "(((*g0 as i128) & 3) >= 1)")] g2: Option<bool>, #[deku(bits = 5, update = "(g4.len() as i128)")] g3: u32, #[deku(count = "g3")] g4: Vec<std::num::NonZeroU32>, #[deku(bits = "64")] g5: u64 },
    #[deku(id_pat = "_")]
    P { g0: u8, #[deku(until = "|v: &u8| ((*v as i128) == 1)")] g1: Vec<u8>, #[deku(skip, default = "(25) as u8")] g2: u8, #[deku(update = "(g4.len() as i128)")] g3: u8, #[deku(bits = "37", count = "((*g3 as i128) + 1)")] g4: std::sync::Arc<[[i64; 2]]>, #[deku(bits = "1")] g5: usize, #[deku(bits = 8)] g6: u32, #[deku(count = "g6")] g7: Vec<(i32, u8,)> },
}
impl Conv for FE33 {
    fn tv(&self) -> Val { match self { FE33::V0 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), FE33::V1 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), FE33::V2 => Val::Var(2, vec![]), FE33::V3 { g0, g1, g2, g3, g4, g5 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), FE33::P { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE33::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(1, i) => { let _ = i; FE33::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(2, i) => { let _ = i; FE33::V2 }, Val::Var(3, i) => { let _ = i; FE33::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(4, i) => { let _ = i; FE33::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, _ => panic!("shape") } }
}
pub fn d_FE33() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE33", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(35)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(0), l(3)), b(Bop::Le, X::F(0), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { pad_bytes_before: Some(l(3)), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 32, s: true }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(6)), lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(1)), lim: Lim::Bits(b(Bop::Mul, X::F(5), l(1))), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }] }, VariantD { name: "V1", id: Some(Val::N(40)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("g3", Ty::Bool) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(4)), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Named(d_FE34)))) }, FieldD { ..FieldD::new("g6", Ty::Named(d_FS35)) }] }, VariantD { name: "V2", id: Some(Val::N(47)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V3", id: Some(Val::N(10)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bits_after: Some(l(1)), magic: Some(b"\x0e"), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(1)), cond: Some(b(Bop::Ge, b(Bop::And, X::F(0), l(3)), l(1))), ..FieldD::new("g2", Ty::Opt(Box::new(Ty::Bool))) }, FieldD { bits: Some(l(5)), update: Some(X::Len(4)), hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::NonZero { w: 32, s: false }))) }, FieldD { bits: Some(l(64)), ..FieldD::new("g5", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(25), l(0xff)))), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(X::Len(4)), hint: Hint::Range(0, 3), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(37)), lim: Lim::Count(b(Bop::Add, X::F(3), l(1))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)))) }, FieldD { bits: Some(l(1)), ..FieldD::new("g5", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g6", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(6)), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: true }, Ty::Int { w: 8, s: false }])))) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", id_type = "i8")]
pub enum FE36 {
    #[deku(id = "31")]
    V0 { g0: u8, g1: bool },
    #[deku(id = 49)]
    V1,
    #[deku(id_pat = "108..=124")]
    P { g0: i8, #[deku(bits = "4")] g1: u8, #[deku(bits_read = "((*g1 as i128) * 64)")] g2: Vec<i64>, g3: std::num::NonZeroU64, #[deku(skip, default = "(103) as u8")] g4: u8 },
}
impl Conv for FE36 {
    fn tv(&self) -> Val { match self { FE36::V0 { g0, g1 } => Val::Var(0, vec![g0.tv(), g1.tv()]), FE36::V1 => Val::Var(1, vec![]), FE36::P { g0, g1, g2, g3, g4 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE36::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(1, i) => { let _ = i; FE36::V1 }, Val::Var(2, i) => { let _ = i; FE36::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_FE36() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE36", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(31)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Bool) }] }, VariantD { name: "V1", id: Some(Val::N(49)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(108, 124)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(1), l(64))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { ..FieldD::new("g3", Ty::NonZero { w: 64, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(103), l(0xff)))), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb", id_type = "u8")]
pub enum FE37 {
    #[deku(id = "57")]
    V0 { g0: u8 },
    #[deku(id = 15)]
    V1 { #[deku(bits = 8, update = "(g1.len() as i128)")] g0: u8, #[deku(bits = 3, count = "g0", pad_bits_after = "2")] g1: Box<[u16]> },
}
impl Conv for FE37 {
    fn tv(&self) -> Val { match self { FE37::V0 { g0 } => Val::Var(0, vec![g0.tv()]), FE37::V1 { g0, g1 } => Val::Var(1, vec![g0.tv(), g1.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE37::V0 { g0: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; FE37::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_FE37() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE37", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(57)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(15)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), update: Some(X::Len(1)), hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(3)), pad_bits_after: Some(l(2)), lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "u8")]
pub enum FE39 {
    #[deku(id = "49")]
    V0 { #[deku(bits = "4")] g0: u32, #[deku(bits = 3, bits_read = "((*g0 as i128) * 3)")] g1: Box<[[i8; 2]]>, #[deku(bits = "4")] g2: u16, #[deku(count = "((*g2 as i128) + 0)")] g3: std::sync::Arc<[(u8, u8,)]>, #[deku(skip, default = "(190) as u8")] g4: u8 },
    #[deku(id = 40)]
    V1 { #[deku(bits = 5, update = "(g1.len() as i128)")] g0: u16, #[deku(count = "((*g0 as i128) + 0)", pad_bytes_before = "3")] g1: Vec<u8> },
}
impl Conv for FE39 {
    fn tv(&self) -> Val { match self { FE39::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), FE39::V1 { g0, g1 } => Val::Var(1, vec![g0.tv(), g1.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE39::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(1, i) => { let _ = i; FE39::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_FE39() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE39", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(49)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(3))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: true }), 2)))) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(2), l(0))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(190), l(0xff)))), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(40)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(5)), update: Some(X::Len(1)), hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { pad_bytes_before: Some(l(3)), lim: Lim::Count(b(Bop::Add, X::F(0), l(0))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct FS41 {
    #[deku(skip, default = "(23) as u8")]
    pub f0: u8,
    #[deku(bits = 6)]
    pub f1: i8,
    #[deku(bits = 8)]
    pub f2: u8,
    #[deku(bytes = 2, bytes_read = "((*f2 as i128) * 2)")]
    pub f3: std::sync::Arc<[(u16, u8,)]>,
    pub f4: u8,
}
impl Conv for FS41 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS41 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_FS41() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS41", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(23), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(6)), ..FieldD::new("f1", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(2)), lim: Lim::Bytes(b(Bop::Mul, X::F(2), l(2))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct FS42 {
    #[deku(bits = 8)]
    pub f0: u16,
    #[deku(count = "f0")]
    pub f1: Vec<u32>,
    #[deku(assert = "(((*f2 as i128) >= 3) && ((*f2 as i128) <= 90))")]
    pub f2: isize,
}
impl Conv for FS42 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS42 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_FS42() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS42", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(2), l(3)), b(Bop::Le, X::F(2), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("f2", Ty::Int { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct FS40 {
    #[deku(bits = "4")]
    pub f0: u16,
    #[deku(bits = "4", count = "f0")]
    pub f1: std::sync::Arc<[i8]>,
    #[deku(skip, default = "(119) as u8")]
    pub f2: u8,
    pub f3: FS41,
    pub f4: FS42,
}
impl Conv for FS40 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS40 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_FS40() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS40", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(4)), lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(119), l(0xff)))), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f3", Ty::Named(d_FS41)) }, FieldD { ..FieldD::new("f4", Ty::Named(d_FS42)) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "u8")]
pub enum FE43 {
    #[deku(id = "54")]
    V0,
    #[deku(id = 9)]
    V1,
    #[deku(id = "12")]
    V2,
}
impl Conv for FE43 {
    fn tv(&self) -> Val { match self { FE43::V0 => Val::Var(0, vec![]), FE43::V1 => Val::Var(1, vec![]), FE43::V2 => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE43::V0 }, Val::Var(1, i) => { let _ = i; FE43::V1 }, Val::Var(2, i) => { let _ = i; FE43::V2 }, _ => panic!("shape") } }
}
pub fn d_FE43() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE43", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(54)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V1", id: Some(Val::N(9)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V2", id: Some(Val::N(12)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "msb")]
pub struct FS38 {
    #[deku(pad_bytes_before = "2")]
    pub f0: FE39,
    pub f1: f32,
    pub f2: (f32, f32,),
    #[deku(skip, default = "(11) as u8")]
    pub f3: u8,
    #[deku(bits = 5)]
    pub f4: u8,
    #[deku(count = "((*f4 as i128) + 2)", pad_bits_before = "1")]
    pub f5: Vec<FS40>,
    #[deku(bits = 5, update = "(self.f7.len() as i128)")]
    pub f6: u16,
    #[deku(bytes_read = "((*f6 as i128) * 1)")]
    pub f7: std::sync::Arc<[FE43]>,
}
impl Conv for FS38 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS38 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]) } }
}
pub fn d_FS38() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS38", kind: Kind::Struct { fields: vec![FieldD { pad_bytes_before: Some(l(2)), ..FieldD::new("f0", Ty::Named(d_FE39)) }, FieldD { ..FieldD::new("f1", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("f2", Ty::Tup(vec![Ty::Float { w: 32 }, Ty::Float { w: 32 }])) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(11), l(0xff)))), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(l(1)), lim: Lim::Count(b(Bop::Add, X::F(4), l(2))), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Named(d_FS40)))) }, FieldD { bits: Some(l(5)), update: Some(X::Len(7)), hint: Hint::Range(0, 9), ..FieldD::new("f6", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(6), l(1))), ..FieldD::new("f7", Ty::Vec(Box::new(Ty::Named(d_FE43)))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "i16", bits = 7)]
pub enum FE45 {
    #[deku(id = "39")]
    V0 { #[deku(update = "(g1.len() as i128)")] g0: u8, #[deku(bits = "22", count = "g0")] g1: std::sync::Arc<[(usize, u8,)]>, g2: u8, #[deku(bits = 5, count = "g2")] g3: Vec<(u8, u8,)>, g4: f64, #[deku(assert = "(((*g5 as i128) >= 3) && ((*g5 as i128) <= 90))")] g5: usize },
    #[deku(id = 48)]
    V1 { #[deku(bits = 14)] g0: u16, #[deku(bits = 5)] g1: u32, #[deku(bits = 32, count = "g1")] g2: Vec<(std::num::NonZeroIsize, u8,)>, g3: u8, #[deku(bits = 47, count = "g3")] g4: std::sync::Arc<[[i64; 2]]>, #[deku(bits = 14)] g5: i16 },
    #[deku(id = "35")]
    V2 { #[deku(bits = 8)] g0: u32, #[deku(count = "((*g0 as i128) + 1)")] g1: Box<[u16]>, g2: u8, #[deku(count = "g2")] g3: Vec<(f32, u8,)>, #[deku(bits = 5)] g4: u16, #[deku(bits = "61", count = "g4", pad_bytes_after = "2")] g5: Vec<[isize; 2]> },
    #[deku(id_pat = "_")]
    P { g0: i16, #[deku(bits = 12)] g1: Box<u16>, g2: u32, #[deku(count = "g2")] g3: Vec<i8>, g4: u8, #[deku(count = "((*g4 as i128) + 1)")] g5: Vec<u16>, #[deku(bits = 8, magic = b"\xc3\x40")] g6: std::num::NonZeroU8, #[deku(bits = "52")] g7: u64 },
}
impl Conv for FE45 {
    fn tv(&self) -> Val { match self { FE45::V0 { g0, g1, g2, g3, g4, g5 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), FE45::V1 { g0, g1, g2, g3, g4, g5 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), FE45::V2 { g0, g1, g2, g3, g4, g5 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), FE45::P { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE45::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(1, i) => { let _ = i; FE45::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(2, i) => { let _ = i; FE45::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(3, i) => { let _ = i; FE45::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, _ => panic!("shape") } }
}
pub fn d_FE45() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE45", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: Some(7), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(39)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(22)), lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 64, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { ..FieldD::new("g4", Ty::Float { w: 64 }) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(5), l(3)), b(Bop::Le, X::F(5), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g5", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(48)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(14)), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(32)), lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::NonZero { w: 64, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(47)), lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)))) }, FieldD { bits: Some(l(14)), ..FieldD::new("g5", Ty::Int { w: 16, s: true }) }] }, VariantD { name: "V2", id: Some(Val::N(35)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(0), l(1))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Float { w: 32 }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("g4", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(61)), pad_bytes_after: Some(l(2)), lim: Lim::Count(X::F(4)), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(12)), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(4), l(1))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(8)), magic: Some(b"\xc3\x40"), ..FieldD::new("g6", Ty::NonZero { w: 8, s: false }) }, FieldD { bits: Some(l(52)), ..FieldD::new("g7", Ty::Int { w: 64, s: false }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct FS44 {
    pub f0: (f64, f64,),
    pub f1: f32,
    pub f2: u16,
    #[deku(count = "((*f2 as i128) + 2)")]
    pub f3: std::sync::Arc<[FE45]>,
    #[deku(bits = 23)]
    pub f4: u32,
    #[deku(update = "(self.f6.len() as i128)")]
    pub f5: u8,
    #[deku(count = "f5")]
    pub f6: std::sync::Arc<[[u64; 2]]>,
    #[deku(bits = 17)]
    pub f7: [isize; 1],
}
impl Conv for FS44 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS44 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]) } }
}
pub fn d_FS44() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS44", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Tup(vec![Ty::Float { w: 64 }, Ty::Float { w: 64 }])) }, FieldD { ..FieldD::new("f1", Ty::Float { w: 32 }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f2", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(2), l(2))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Named(d_FE45)))) }, FieldD { bits: Some(l(23)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { update: Some(X::Len(6)), hint: Hint::Range(0, 9), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(5)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)))) }, FieldD { bits: Some(l(17)), ..FieldD::new("f7", Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 1)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct FS46 {
    #[deku(bits = 5)]
    pub f0: i8,
    pub f1: i128,
    pub f2: u32,
    pub f3: i16,
}
impl Conv for FS46 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS46 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_FS46() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS46", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("f0", Ty::Int { w: 8, s: true }) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 128, s: true }) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("f3", Ty::Int { w: 16, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "u16")]
pub enum FE48 {
    #[deku(id = "21")]
    V0,
    #[deku(id = 49)]
    V1 { #[deku(bits = 8, update = "(g1.len() as i128)")] g0: u32, #[deku(bits = 2, count = "((*g0 as i128) + 1)")] g1: Vec<i32>, #[deku(bits = 8)] g2: u8, #[deku(count = "g2")] g3: Box<[i128]>, g4: bool, #[deku(bits = 8)] g5: u32, #[deku(bits = 26, count = "((*g5 as i128) + 2)")] g6: Vec<(u128, u8,)>, #[deku(bits = 8)] g7: u8, #[deku(count = "g7")] g8: std::sync::Arc<[[f32; 2]]> },
    #[deku(id = "53")]
    V2 { #[deku(bits = 8, update = "(g1.len() as i128)")] g0: u32, #[deku(bytes_read = "((*g0 as i128) * 4)")] g1: Box<[i32]>, #[deku(bits = "4", update = "(g3.len() as i128)")] g2: u8, #[deku(bits = "13", count = "((*g2 as i128) + 2)")] g3: Vec<(u32, u8,)>, #[deku(bits = 2)] g4: u8 },
    #[deku(id = 20)]
    V3 { #[deku(until = "|v: &u16| ((*v as i128) == 1)", magic = b"\x49\x97")] g0: Vec<u16>, #[deku(assert = "(((*g1 as i128) >= 3) && ((*g1 as i128) <= 90))")] g1: u8, #[deku(bits = 8)] g2: u8, #[deku(bytes = "1", count = "g2")] g3: Box<[u32]> },
    #[deku(id_pat = "9870..=27963")]
    P { g0: u16, #[deku(bits = 8)] g1: u8, #[deku(bytes_read = "((*g1 as i128) * 5)")] g2: Box<[(u32, u8,)]>, #[deku(bits = "16")] g3: isize, #[deku(bits = "16")] g4: (isize, isize,), #[deku(bits = "4", update = "(g6.len() as i128)")] g5: u16, #[deku(count = "g5", pad_bits_after = "1")] g6: std::sync::Arc<[[u32; 2]]>, #[deku(until = "|v: &u16| ((*v as i128) == 1)")] g7: Vec<u16>, #[deku(bits = 32)] g8: std::num::NonZeroU32 },
}
impl Conv for FE48 {
    fn tv(&self) -> Val { match self { FE48::V0 => Val::Var(0, vec![]), FE48::V1 { g0, g1, g2, g3, g4, g5, g6, g7, g8 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv()]), FE48::V2 { g0, g1, g2, g3, g4 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), FE48::V3 { g0, g1, g2, g3 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), FE48::P { g0, g1, g2, g3, g4, g5, g6, g7, g8 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE48::V0 }, Val::Var(1, i) => { let _ = i; FE48::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]) } }, Val::Var(2, i) => { let _ = i; FE48::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(3, i) => { let _ = i; FE48::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(4, i) => { let _ = i; FE48::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]) } }, _ => panic!("shape") } }
}
pub fn d_FE48() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE48", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(21)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V1", id: Some(Val::N(49)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), update: Some(X::Len(1)), hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(2)), lim: Lim::Count(b(Bop::Add, X::F(0), l(1))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 32, s: true }))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 128, s: true }))) }, FieldD { ..FieldD::new("g4", Ty::Bool) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g5", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(26)), lim: Lim::Count(b(Bop::Add, X::F(5), l(2))), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 128, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g7", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(7)), ..FieldD::new("g8", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Float { w: 32 }), 2)))) }] }, VariantD { name: "V2", id: Some(Val::N(53)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), update: Some(X::Len(1)), hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(4))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 32, s: true }))) }, FieldD { bits: Some(l(4)), update: Some(X::Len(3)), hint: Hint::Range(0, 7), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(13)), lim: Lim::Count(b(Bop::Add, X::F(2), l(2))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(2)), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V3", id: Some(Val::N(20)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), magic: Some(b"\x49\x97"), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(1), l(3)), b(Bop::Le, X::F(1), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(1)), lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(9870, 27963)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(5))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(16)), ..FieldD::new("g3", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(16)), ..FieldD::new("g4", Ty::Tup(vec![Ty::Int { w: 64, s: true }, Ty::Int { w: 64, s: true }])) }, FieldD { bits: Some(l(4)), update: Some(X::Len(6)), hint: Hint::Range(0, 7), ..FieldD::new("g5", Ty::Int { w: 16, s: false }) }, FieldD { pad_bits_after: Some(l(1)), lim: Lim::Count(X::F(5)), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(32)), ..FieldD::new("g8", Ty::NonZero { w: 32, s: false }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "u32", bits = 7)]
pub enum FE49 {
    #[deku(id = "38")]
    V0 { g0: [[u8; 2]; 2], g1: f32, #[deku(bits = "127", magic = b"\x28")] g2: u128, #[deku(bits = "4")] g3: u32, #[deku(bits = "1", bits_read = "((*g3 as i128) * 1)", magic = b"\x21\xa5\x93")] g4: Vec<u8>, #[deku(skip, default = "(156) as u8")] g5: u8 },
    #[deku(id = 6)]
    V1 { g0: [i64; 2], #[deku(bytes = "4")] g1: usize, #[deku(cond = "(((*g1 as i128) & 3) >= 1)")] g2: Option<u8>, #[deku(skip, default = "(31) as u8")] g3: u8, #[deku(pad_bytes_after = "1")] g4: [[u16; 2]; 2] },
    #[deku(id = "29")]
    V2 { #[deku(assert = "(((*g0 as i128) >= 3) && ((*g0 as i128) <= 90))")] g0: i16, g1: i8, #[deku(bits = 5)] g2: u8, #[deku(bits = "7", bits_read = "((*g2 as i128) * 7)")] g3: Vec<u8>, #[deku(bits = 8, update = "(g5.len() as i128)")] g4: u32, #[deku(bits = "40", bits_read = "((*g4 as i128) * 40)")] g5: Vec<(i64, u8,)>, g6: usize },
    #[deku(id = 45)]
    V3,
    #[deku(id_pat = "51..=61")]
    P { g0: u32, #[deku(skip, default = "(183) as u8")] g1: u8, g2: f64, #[deku(bits = "4")] g3: u8, #[deku(bytes_read = "((*g3 as i128) * 9)")] g4: Vec<(usize, u8,)>, g5: isize, #[deku(bits = 8)] g6: u16, #[deku(bits = 2, bits_read = "((*g6 as i128) * 2)", magic = b"\x2b\xe7\xfa")] g7: Box<[i32]>, #[deku(bits = 8)] g8: u32, #[deku(bytes = 3, bytes_read = "((*g8 as i128) * 3)")] g9: Vec<isize> },
}
impl Conv for FE49 {
    fn tv(&self) -> Val { match self { FE49::V0 { g0, g1, g2, g3, g4, g5 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), FE49::V1 { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), FE49::V2 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), FE49::V3 => Val::Var(3, vec![]), FE49::P { g0, g1, g2, g3, g4, g5, g6, g7, g8, g9 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv(), g9.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE49::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(1, i) => { let _ = i; FE49::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(2, i) => { let _ = i; FE49::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(3, i) => { let _ = i; FE49::V3 }, Val::Var(4, i) => { let _ = i; FE49::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]), g9: Conv::fv(&i[9]) } }, _ => panic!("shape") } }
}
pub fn d_FE49() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE49", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: Some(7), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(38)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)), 2)) }, FieldD { ..FieldD::new("g1", Ty::Float { w: 32 }) }, FieldD { bits: Some(l(127)), magic: Some(b"\x28"), ..FieldD::new("g2", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(1)), lim: Lim::Bits(b(Bop::Mul, X::F(3), l(1))), magic: Some(b"\x21\xa5\x93"), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(156), l(0xff)))), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)) }, FieldD { bytes: Some(l(4)), ..FieldD::new("g1", Ty::Int { w: 64, s: false }) }, FieldD { cond: Some(b(Bop::Ge, b(Bop::And, X::F(1), l(3)), l(1))), ..FieldD::new("g2", Ty::Opt(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(31), l(0xff)))), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(l(1)), ..FieldD::new("g4", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)), 2)) }] }, VariantD { name: "V2", id: Some(Val::N(29)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(0), l(3)), b(Bop::Le, X::F(0), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g0", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(7)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(7))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(8)), update: Some(X::Len(5)), hint: Hint::Range(0, 3), ..FieldD::new("g4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(40)), lim: Lim::Bits(b(Bop::Mul, X::F(4), l(40))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 64, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { ..FieldD::new("g6", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "V3", id: Some(Val::N(45)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(51, 61)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(183), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g2", Ty::Float { w: 64 }) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(3), l(9))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 64, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { ..FieldD::new("g5", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g6", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(2)), lim: Lim::Bits(b(Bop::Mul, X::F(6), l(2))), magic: Some(b"\x2b\xe7\xfa"), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Int { w: 32, s: true }))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g8", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(8), l(3))), ..FieldD::new("g9", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct FS50 {
    pub f0: [[f32; 2]; 2],
}
impl Conv for FS50 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS50 { f0: Conv::fv(&i[0]) } }
}
pub fn d_FS50() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS50", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Float { w: 32 }), 2)), 2)) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\xd7\xcf", endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct FS51 {
    #[deku(bits = 8)]
    pub f0: u8,
    #[deku(count = "f0")]
    pub f1: std::sync::Arc<[[i32; 2]]>,
    #[deku(bits = "4")]
    pub f2: u8,
    #[deku(bits = "7", count = "f2")]
    pub f3: Vec<u8>,
    #[deku(bits = 24)]
    pub f4: i64,
}
impl Conv for FS51 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS51 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_FS51() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS51", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: true }), 2)))) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(7)), lim: Lim::Count(X::F(2)), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(24)), ..FieldD::new("f4", Ty::Int { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: Some(b"\xd7\xcf"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\x16\x67", endian = "big", bit_order = "lsb", id_type = "u32")]
pub enum FE47 {
    #[deku(id = "50")]
    V0 { #[deku(bits = 2)] g0: i8, #[deku(skip, default = "(107) as u8", magic = b"\x3d\xc7")] g1: u8, #[deku(bits = 24)] g2: i32, g3: bool },
    #[deku(id = 31)]
    V1 { g0: (FE48, FE48,), #[deku(bits = 5)] g1: u16, #[deku(bits = 5, bits_read = "((*g1 as i128) * 5)")] g2: Vec<i16>, #[deku(bits = "16")] g3: u16, g4: [FE49; 2] },
    #[deku(id = "17")]
    V2 { #[deku(bits = "1", magic = b"\x86\xea\xfa")] g0: bool, #[deku(bits = 8)] g1: u8, #[deku(count = "((*g1 as i128) + 2)", magic = b"\x33\x67")] g2: Vec<FS50>, g3: u128, g4: FS51 },
}
impl Conv for FE47 {
    fn tv(&self) -> Val { match self { FE47::V0 { g0, g1, g2, g3 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), FE47::V1 { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), FE47::V2 { g0, g1, g2, g3, g4 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE47::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(1, i) => { let _ = i; FE47::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(2, i) => { let _ = i; FE47::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_FE47() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE47", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(50)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(2)), ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(107), l(0xff)))), magic: Some(b"\x3d\xc7"), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(24)), ..FieldD::new("g2", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("g3", Ty::Bool) }] }, VariantD { name: "V1", id: Some(Val::N(31)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Tup(vec![Ty::Named(d_FE48), Ty::Named(d_FE48)])) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(5)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(5))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }, FieldD { bits: Some(l(16)), ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("g4", Ty::Arr(Box::new(Ty::Named(d_FE49)), 2)) }] }, VariantD { name: "V2", id: Some(Val::N(17)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(1)), magic: Some(b"\x86\xea\xfa"), ..FieldD::new("g0", Ty::Bool) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(1), l(2))), magic: Some(b"\x33\x67"), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Named(d_FS50)))) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("g4", Ty::Named(d_FS51)) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: Some(b"\x16\x67"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb")]
pub struct FS52 {
    #[deku(bits = 5)]
    pub f0: u32,
    #[deku(count = "f0", pad_bits_before = "2")]
    pub f1: Vec<bool>,
}
impl Conv for FS52 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS52 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_FS52() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS52", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("f0", Ty::Int { w: 32, s: false }) }, FieldD { pad_bits_before: Some(l(2)), lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Bool))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "msb")]
pub struct FS53 {
    pub f0: u8,
    #[deku(bits = "1")]
    pub f1: [bool; 1],
}
impl Conv for FS53 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS53 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_FS53() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS53", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(1)), ..FieldD::new("f1", Ty::Arr(Box::new(Ty::Bool), 1)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct FS55 {
    #[deku(update = "(self.f1.len() as i128)")]
    pub f0: u8,
    #[deku(bytes_read = "((*f0 as i128) * 2)", pad_bytes_after = "3")]
    pub f1: Box<[(bool, u8,)]>,
}
impl Conv for FS55 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS55 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_FS55() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS55", kind: Kind::Struct { fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 3), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(l(3)), lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(2))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Bool, Ty::Int { w: 8, s: false }])))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct FS54 {
    #[deku(bytes = "4")]
    pub f0: i64,
    pub f1: (FS55, FS55,),
    #[deku(until = "|v: &i8| ((*v as i128) == 1)")]
    pub f2: Vec<i8>,
}
impl Conv for FS54 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS54 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_FS54() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS54", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(4)), ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("f1", Ty::Tup(vec![Ty::Named(d_FS55), Ty::Named(d_FS55)])) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u32", bits = 4)]
pub enum FE57 {
    #[deku(id = "0")]
    V0 { #[deku(bits = "4", update = "(g1.len() as i128)")] g0: u8, #[deku(bytes_read = "((*g0 as i128) * 8)", pad_bytes_before = "1")] g1: std::sync::Arc<[u64]>, #[deku(bits = "4")] g2: i32 },
    #[deku(id_pat = "_")]
    P { g0: u32, #[deku(magic = b"\x6b\xfe")] g1: Option<i16>, g2: u64 },
}
impl Conv for FE57 {
    fn tv(&self) -> Val { match self { FE57::V0 { g0, g1, g2 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv()]), FE57::P { g0, g1, g2 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE57::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(1, i) => { let _ = i; FE57::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_FE57() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE57", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: Some(4), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), update: Some(X::Len(1)), hint: Hint::Range(0, 7), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { bits: Some(l(4)), ..FieldD::new("g2", Ty::Int { w: 32, s: true }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { magic: Some(b"\x6b\xfe"), ..FieldD::new("g1", Ty::Opt(Box::new(Ty::Int { w: 16, s: true }))) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 64, s: false }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\x1b\xa0", endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u32", bits = 6)]
pub enum FE58 {
    #[deku(id = "6")]
    V0 { g0: u8, #[deku(count = "((*g0 as i128) + 2)")] g1: Vec<[f32; 2]> },
    #[deku(id = 22)]
    V1 { #[deku(bits = 3)] g0: u8, #[deku(until = "|v: &u8| ((*v as i128) == 0)")] g1: Vec<u8>, g2: u16, #[deku(count = "((*g2 as i128) + 1)")] g3: std::sync::Arc<[u32]>, #[deku(update = "(g5.len() as i128)")] g4: u8, #[deku(count = "((*g4 as i128) + 2)")] g5: Vec<[u64; 2]>, g6: u32, #[deku(bits = 56, count = "g6")] g7: Vec<(i64, u8,)> },
}
impl Conv for FE58 {
    fn tv(&self) -> Val { match self { FE58::V0 { g0, g1 } => Val::Var(0, vec![g0.tv(), g1.tv()]), FE58::V1 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE58::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(1, i) => { let _ = i; FE58::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, _ => panic!("shape") } }
}
pub fn d_FE58() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE58", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: Some(6), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(0), l(2))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Float { w: 32 }), 2)))) }] }, VariantD { name: "V1", id: Some(Val::N(22)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(2), l(1))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { update: Some(X::Len(5)), hint: Hint::Range(0, 6), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(4), l(2))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)))) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(56)), lim: Lim::Count(X::F(6)), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 64, s: true }, Ty::Int { w: 8, s: false }])))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: Some(b"\x1b\xa0"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", id_type = "u8")]
pub enum FE56 {
    #[deku(id = "39")]
    V0 { g0: FE57 },
    #[deku(id = 2)]
    V1 { #[deku(bits = "61")] g0: usize, g1: FE58, g2: u16, #[deku(magic = b"\xca\x72\xc7")] g3: [u16; 4], #[deku(assert = "(((*g4 as i128) >= 3) && ((*g4 as i128) <= 90))")] g4: i16, g5: [usize; 2] },
    #[deku(id_pat = "99..=125")]
    P { g0: u8, #[deku(bits = 5)] g1: (u8, u8,), g2: u8, #[deku(count = "((*g2 as i128) + 0)")] g3: Vec<f32> },
}
impl Conv for FE56 {
    fn tv(&self) -> Val { match self { FE56::V0 { g0 } => Val::Var(0, vec![g0.tv()]), FE56::V1 { g0, g1, g2, g3, g4, g5 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), FE56::P { g0, g1, g2, g3 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE56::V0 { g0: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; FE56::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(2, i) => { let _ = i; FE56::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_FE56() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE56", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(39)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Named(d_FE57)) }] }, VariantD { name: "V1", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(61)), ..FieldD::new("g0", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Named(d_FE58)) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { magic: Some(b"\xca\x72\xc7"), ..FieldD::new("g3", Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 4)) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(4), l(3)), b(Bop::Le, X::F(4), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g4", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("g5", Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(99, 125)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), ..FieldD::new("g1", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(2), l(0))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Float { w: 32 }))) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct FS60 {
    #[deku(bytes = 2)]
    pub f0: u16,
    pub f1: bool,
}
impl Conv for FS60 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS60 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_FS60() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS60", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(2)), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Bool) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct FS61 {
    #[deku(bits = 17)]
    pub f0: Box<i64>,
    #[deku(bits = "19")]
    pub f1: i64,
    pub f2: u8,
    #[deku(until = "|v: &u8| ((*v as i128) == 1)")]
    pub f3: Vec<u8>,
    #[deku(bits = 5)]
    pub f4: u32,
    #[deku(count = "((*f4 as i128) + 0)")]
    pub f5: Box<[(u8, u8,)]>,
    pub f6: u8,
}
impl Conv for FS61 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS61 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_FS61() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS61", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(17)), ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(19)), ..FieldD::new("f1", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(4), l(0))), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct FS62 {
    pub f0: u16,
    #[deku(bytes = 9, count = "f0")]
    pub f1: std::sync::Arc<[i128]>,
    #[deku(until = "|v: &u16| ((*v as i128) == 1)")]
    pub f2: Vec<u16>,
    #[deku(assert = "(((*f3 as i128) >= 3) && ((*f3 as i128) <= 90))", magic = b"\xe8")]
    pub f3: u8,
    #[deku(bits = 51)]
    pub f4: i64,
}
impl Conv for FS62 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS62 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_FS62() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS62", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(9)), lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 128, s: true }))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(3), l(3)), b(Bop::Le, X::F(3), l(90)))), magic: Some(b"\xe8"), hint: Hint::Range(3, 90), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(51)), ..FieldD::new("f4", Ty::Int { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\x93\x51\x80", endian = "big", id_type = "u16")]
pub enum FE59 {
    #[deku(id = "21")]
    V0 { #[deku(bits = 8, update = "(g1.len() as i128)")] g0: u8, #[deku(bits = "7", count = "g0")] g1: Vec<u8> },
    #[deku(id = 6)]
    V1 { #[deku(skip, default = "(99) as u8")] g0: u8, g1: bool, #[deku(update = "(g3.len() as i128)")] g2: u8, #[deku(bits_read = "((*g2 as i128) * 24)")] g3: Vec<FS60> },
    #[deku(id = "58")]
    V2 { g0: u8, #[deku(bits = 2, count = "g0")] g1: Vec<u8>, g2: i128, g3: u16, #[deku(bits = 5)] g4: i16, g5: u16, #[deku(bits = 56)] g6: i64 },
    #[deku(id = 15)]
    V3 { #[deku(bits = "1", pad_bits_before = "3")] g0: Box<bool>, g1: u8, #[deku(count = "g1")] g2: Box<[FS61]>, g3: [FS62; 2] },
    #[deku(id_pat = "7522..=17200")]
    P { g0: u16, g1: i8, #[deku(update = "(g3.len() as i128)")] g2: u8, #[deku(bits = 3, count = "g2")] g3: std::sync::Arc<[u8]> },
}
impl Conv for FE59 {
    fn tv(&self) -> Val { match self { FE59::V0 { g0, g1 } => Val::Var(0, vec![g0.tv(), g1.tv()]), FE59::V1 { g0, g1, g2, g3 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), FE59::V2 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), FE59::V3 { g0, g1, g2, g3 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), FE59::P { g0, g1, g2, g3 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE59::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(1, i) => { let _ = i; FE59::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(2, i) => { let _ = i; FE59::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(3, i) => { let _ = i; FE59::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(4, i) => { let _ = i; FE59::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_FE59() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE59", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(21)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), update: Some(X::Len(1)), hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(7)), lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "V1", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(99), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Bool) }, FieldD { update: Some(X::Len(3)), hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(2), l(24))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Named(d_FS60)))) }] }, VariantD { name: "V2", id: Some(Val::N(58)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 128, s: true }) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(5)), ..FieldD::new("g4", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("g5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(56)), ..FieldD::new("g6", Ty::Int { w: 64, s: true }) }] }, VariantD { name: "V3", id: Some(Val::N(15)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(1)), pad_bits_before: Some(l(3)), ..FieldD::new("g0", Ty::Bool) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Named(d_FS61)))) }, FieldD { ..FieldD::new("g3", Ty::Arr(Box::new(Ty::Named(d_FS62)), 2)) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(7522, 17200)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 8, s: true }) }, FieldD { update: Some(X::Len(3)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(3)), lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: Some(b"\x93\x51\x80"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "i8")]
pub enum FE64 {
    #[deku(id = "57")]
    V0 { g0: bool, #[deku(bytes = 2, pad_bytes_before = "3")] g1: u16, g2: [i32; 4], #[deku(bits = 2)] g3: u16 },
    #[deku(id = 47)]
    V1 { #[deku(update = "(g1.len() as i128)")] g0: u16, #[deku(count = "g0")] g1: Box<[i32]>, #[deku(skip, default = "(26) as u8")] g2: u8, g3: u8, #[deku(bits_read = "((*g3 as i128) * 128)")] g4: Box<[[i64; 2]]> },
    #[deku(id = "15")]
    V2 { g0: u32, #[deku(count = "((*g0 as i128) + 2)")] g1: Box<[i128]>, g2: f32, #[deku(bits = "1", pad_bytes_before = "2")] g3: i16 },
    #[deku(id = 27)]
    V3 { #[deku(bits = "10")] g0: u16, g1: bool, g2: u8, #[deku(count = "g2")] g3: Vec<[i128; 2]>, #[deku(bits = "4")] g4: u8, #[deku(bits = 8)] g5: u8, #[deku(bits = "43", bits_read = "((*g5 as i128) * 43)")] g6: Vec<[isize; 2]> },
    #[deku(id_pat = "_")]
    P { g0: i8, g1: u16, #[deku(count = "g1")] g2: Box<[i32]> },
}
impl Conv for FE64 {
    fn tv(&self) -> Val { match self { FE64::V0 { g0, g1, g2, g3 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), FE64::V1 { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), FE64::V2 { g0, g1, g2, g3 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), FE64::V3 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), FE64::P { g0, g1, g2 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE64::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(1, i) => { let _ = i; FE64::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(2, i) => { let _ = i; FE64::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(3, i) => { let _ = i; FE64::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(4, i) => { let _ = i; FE64::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_FE64() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE64", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(57)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Bool) }, FieldD { bytes: Some(l(2)), pad_bytes_before: Some(l(3)), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("g2", Ty::Arr(Box::new(Ty::Int { w: 32, s: true }), 4)) }, FieldD { bits: Some(l(2)), ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(47)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 32, s: true }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(26), l(0xff)))), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(3), l(128))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)))) }] }, VariantD { name: "V2", id: Some(Val::N(15)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(0), l(2))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 128, s: true }))) }, FieldD { ..FieldD::new("g2", Ty::Float { w: 32 }) }, FieldD { bits: Some(l(1)), pad_bytes_before: Some(l(2)), ..FieldD::new("g3", Ty::Int { w: 16, s: true }) }] }, VariantD { name: "V3", id: Some(Val::N(27)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(10)), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Bool) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 128, s: true }), 2)))) }, FieldD { bits: Some(l(4)), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(43)), lim: Lim::Bits(b(Bop::Mul, X::F(5), l(43))), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 32, s: true }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct FS63 {
    #[deku(bits = 105)]
    pub f0: i128,
    pub f1: (FE64, FE64,),
    #[deku(bytes = "4")]
    pub f2: u32,
    #[deku(cond = "(((*f2 as i128) & 3) >= 1)")]
    pub f3: Option<u128>,
}
impl Conv for FS63 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS63 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_FS63() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS63", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(105)), ..FieldD::new("f0", Ty::Int { w: 128, s: true }) }, FieldD { ..FieldD::new("f1", Ty::Tup(vec![Ty::Named(d_FE64), Ty::Named(d_FE64)])) }, FieldD { bytes: Some(l(4)), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { cond: Some(b(Bop::Ge, b(Bop::And, X::F(2), l(3)), l(1))), ..FieldD::new("f3", Ty::Opt(Box::new(Ty::Int { w: 128, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct FS66 {
    pub f0: isize,
    #[deku(bits = 89)]
    pub f1: (u128, u128,),
    pub f2: i32,
    #[deku(assert = "(((*f3 as i128) >= 3) && ((*f3 as i128) <= 90))")]
    pub f3: i16,
    pub f4: i64,
}
impl Conv for FS66 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS66 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_FS66() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS66", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(89)), ..FieldD::new("f1", Ty::Tup(vec![Ty::Int { w: 128, s: false }, Ty::Int { w: 128, s: false }])) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(3), l(3)), b(Bop::Le, X::F(3), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("f3", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "i16", bits = 6)]
pub enum FE67 {
    #[deku(id = "21")]
    V0 { #[deku(bits = 8)] g0: u8, #[deku(bits = "4", bits_read = "((*g0 as i128) * 4)")] g1: Vec<bool>, g2: u64, #[deku(bits = 8)] g3: u32, #[deku(count = "((*g3 as i128) + 0)")] g4: Vec<u32>, g5: Option<usize>, #[deku(bits = 5)] g6: u32, #[deku(count = "g6")] g7: Vec<u8>, #[deku(bits = 5, update = "(g9.len() as i128)")] g8: u16, #[deku(bits_read = "((*g8 as i128) * 64)")] g9: std::sync::Arc<[u64]> },
    #[deku(id = 6)]
    V1 { #[deku(pad_bits_after = "3", skip, default = "(140) as u8")] g0: u8, #[deku(assert = "(((*g1 as i128) >= 3) && ((*g1 as i128) <= 90))")] g1: i64, #[deku(skip, default = "(132) as u8")] g2: u8, #[deku(bits = 5, update = "(g4.len() as i128)")] g3: u32, #[deku(count = "g3", pad_bytes_before = "1")] g4: Box<[(u8, u8,)]>, #[deku(bits = 8)] g5: u8, #[deku(bits = 6, count = "((*g5 as i128) + 2)")] g6: Vec<u8> },
    #[deku(id = "12")]
    V2,
}
impl Conv for FE67 {
    fn tv(&self) -> Val { match self { FE67::V0 { g0, g1, g2, g3, g4, g5, g6, g7, g8, g9 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv(), g9.tv()]), FE67::V1 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), FE67::V2 => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE67::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]), g9: Conv::fv(&i[9]) } }, Val::Var(1, i) => { let _ = i; FE67::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(2, i) => { let _ = i; FE67::V2 }, _ => panic!("shape") } }
}
pub fn d_FE67() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE67", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: Some(6), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(21)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(4))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(3), l(0))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { ..FieldD::new("g5", Ty::Opt(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("g6", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(6)), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(5)), update: Some(X::Len(9)), hint: Hint::Range(0, 3), ..FieldD::new("g8", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(8), l(64))), ..FieldD::new("g9", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }] }, VariantD { name: "V1", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bits_after: Some(l(3)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(140), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(1), l(3)), b(Bop::Le, X::F(1), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g1", Ty::Int { w: 64, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(132), l(0xff)))), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), update: Some(X::Len(4)), hint: Hint::Range(0, 9), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(6)), lim: Lim::Count(b(Bop::Add, X::F(5), l(2))), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "V2", id: Some(Val::N(12)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\xfd", endian = "big", bit_order = "msb")]
pub struct FS65 {
    #[deku(bytes = 6)]
    pub f0: isize,
    pub f1: [u32; 2],
    #[deku(bits = "4")]
    pub f2: u32,
    #[deku(bytes = 8, bits_read = "((*f2 as i128) * 64)", pad_bits_before = "3")]
    pub f3: Box<[u128]>,
    pub f4: [FS66; 2],
    #[deku(bits = 8, update = "(self.f6.len() as i128)")]
    pub f5: u32,
    #[deku(count = "((*f5 as i128) + 2)")]
    pub f6: Box<[FE67]>,
    #[deku(bits = 8)]
    pub f7: Box<std::num::NonZeroI64>,
}
impl Conv for FS65 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS65 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]) } }
}
pub fn d_FS65() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS65", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(6)), ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("f1", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(8)), pad_bits_before: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(64))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 128, s: false }))) }, FieldD { ..FieldD::new("f4", Ty::Arr(Box::new(Ty::Named(d_FS66)), 2)) }, FieldD { bits: Some(l(8)), update: Some(X::Len(6)), hint: Hint::Range(0, 3), ..FieldD::new("f5", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(5), l(2))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Named(d_FE67)))) }, FieldD { bits: Some(l(8)), ..FieldD::new("f7", Ty::NonZero { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: Some(b"\xfd"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct FS68 {
    #[deku(bits = 8, update = "(self.f1.len() as i128)")]
    pub f0: u8,
    #[deku(bytes_read = "((*f0 as i128) * 16)")]
    pub f1: Vec<[u64; 2]>,
    #[deku(bits = 32, pad_bits_after = "3")]
    pub f2: std::num::NonZeroU32,
    pub f3: bool,
    #[deku(skip, default = "(2) as u8")]
    pub f4: u8,
}
impl Conv for FS68 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS68 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_FS68() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS68", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(8)), update: Some(X::Len(1)), hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(16))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)))) }, FieldD { bits: Some(l(32)), pad_bits_after: Some(l(3)), ..FieldD::new("f2", Ty::NonZero { w: 32, s: false }) }, FieldD { ..FieldD::new("f3", Ty::Bool) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xff)))), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(bit_order = "lsb")]
pub struct FS69 {
    #[deku(skip, default = "(88) as u8")]
    pub f0: u8,
    pub f1: u16,
}
impl Conv for FS69 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS69 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_FS69() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS69", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(88), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 16, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct FS70 {
    pub f0: u64,
    #[deku(bits = 2)]
    pub f1: u8,
}
impl Conv for FS70 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS70 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_FS70() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS70", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(2)), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct FS72 {
    #[deku(bits = "52")]
    pub f0: i64,
    pub f1: u32,
    #[deku(bits = 81, count = "((*f1 as i128) + 1)")]
    pub f2: Vec<i128>,
}
impl Conv for FS72 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS72 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_FS72() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS72", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(52)), ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("f1", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(81)), lim: Lim::Count(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 128, s: true }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u8")]
pub enum FE73 {
    #[deku(id = "45")]
    V0 { g0: isize, #[deku(skip, default = "(85) as u8")] g1: u8, #[deku(bits = 8, update = "(g3.len() as i128)")] g2: u8, #[deku(count = "((*g2 as i128) + 1)")] g3: Vec<i64>, g4: i128 },
    #[deku(id = 20)]
    V1 { #[deku(bits = 8)] g0: u16, #[deku(bytes = 5, bits_read = "((*g0 as i128) * 40)")] g1: Vec<u64>, #[deku(bits = "4")] g2: u16, #[deku(bits = 119, bits_read = "((*g2 as i128) * 119)")] g3: Vec<(i128, u8,)>, g4: Box<i64> },
}
impl Conv for FE73 {
    fn tv(&self) -> Val { match self { FE73::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), FE73::V1 { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE73::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(1, i) => { let _ = i; FE73::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_FE73() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE73", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(45)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(85), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(3)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(2), l(1))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { ..FieldD::new("g4", Ty::Int { w: 128, s: true }) }] }, VariantD { name: "V1", id: Some(Val::N(20)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(5)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(40))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(119)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(119))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 128, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { ..FieldD::new("g4", Ty::Int { w: 64, s: true }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct FS71 {
    #[deku(pad_bits_after = "2")]
    pub f0: [FS72; 2],
    #[deku(bits = "4")]
    pub f1: bool,
    pub f2: i32,
    pub f3: u32,
    #[deku(update = "(self.f5.len() as i128)")]
    pub f4: u32,
    #[deku(count = "f4", pad_bits_after = "1")]
    pub f5: Vec<FE73>,
    #[deku(read_all)]
    pub f6: Vec<u8>,
}
impl Conv for FS71 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS71 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_FS71() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS71", kind: Kind::Struct { fields: vec![FieldD { pad_bits_after: Some(l(2)), ..FieldD::new("f0", Ty::Arr(Box::new(Ty::Named(d_FS72)), 2)) }, FieldD { bits: Some(l(4)), ..FieldD::new("f1", Ty::Bool) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("f3", Ty::Int { w: 32, s: false }) }, FieldD { update: Some(X::Len(5)), hint: Hint::Range(0, 3), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { pad_bits_after: Some(l(1)), lim: Lim::Count(X::F(4)), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Named(d_FE73)))) }, FieldD { lim: Lim::All, ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct FS75 {
    pub f0: u8,
    #[deku(bits = "127", count = "f0", magic = b"\x41")]
    pub f1: std::sync::Arc<[[u128; 2]]>,
}
impl Conv for FS75 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS75 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_FS75() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS75", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(127)), lim: Lim::Count(X::F(0)), magic: Some(b"\x41"), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 128, s: false }), 2)))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct FS76 {
    #[deku(bits = 14)]
    pub f0: [[u16; 2]; 2],
    #[deku(bits = 11)]
    pub f1: i16,
    pub f2: i16,
    pub f3: u64,
}
impl Conv for FS76 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS76 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_FS76() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS76", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(14)), ..FieldD::new("f0", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)), 2)) }, FieldD { bits: Some(l(11)), ..FieldD::new("f1", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("f3", Ty::Int { w: 64, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "u8")]
pub enum FE74 {
    #[deku(id = "23")]
    V0 { g0: FS75, #[deku(bits = 8)] g1: u8, #[deku(bytes_read = "((*g1 as i128) * 4)")] g2: Vec<u32>, g3: u8, #[deku(count = "g3")] g4: Box<[f64]> },
    #[deku(id = 45)]
    V1,
    #[deku(id = "49")]
    V2 { g0: [u128; 2], #[deku(bits = "1")] g1: bool, #[deku(until = "|v: &u8| ((*v as i128) == 1)")] g2: Vec<u8>, g3: FS76, #[deku(pad_bytes_before = "1")] g4: i16, #[deku(bytes = 3)] g5: i32 },
    #[deku(id_pat = "102..=116")]
    P { g0: u8, #[deku(bytes = 2)] g1: u16, g2: u8, #[deku(bits = 26, bits_read = "((*g2 as i128) * 26)")] g3: Vec<isize>, #[deku(pad_bits_after = "2", until = "|v: &u16| ((*v as i128) == 1)")] g4: Vec<u16>, #[deku(cond = "(((*g1 as i128) & 3) >= 2)")] g5: Option<u32>, #[deku(bytes = 2, pad_bytes_before = "3")] g6: u16, g7: u32, #[deku(count = "g7", pad_bits_before = "3")] g8: Vec<u32> },
}
impl Conv for FE74 {
    fn tv(&self) -> Val { match self { FE74::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), FE74::V1 => Val::Var(1, vec![]), FE74::V2 { g0, g1, g2, g3, g4, g5 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), FE74::P { g0, g1, g2, g3, g4, g5, g6, g7, g8 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE74::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(1, i) => { let _ = i; FE74::V1 }, Val::Var(2, i) => { let _ = i; FE74::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(3, i) => { let _ = i; FE74::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]) } }, _ => panic!("shape") } }
}
pub fn d_FE74() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE74", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(23)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Named(d_FS75)) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(4))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Float { w: 64 }))) }] }, VariantD { name: "V1", id: Some(Val::N(45)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V2", id: Some(Val::N(49)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Int { w: 128, s: false }), 2)) }, FieldD { bits: Some(l(1)), ..FieldD::new("g1", Ty::Bool) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("g3", Ty::Named(d_FS76)) }, FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("g4", Ty::Int { w: 16, s: true }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("g5", Ty::Int { w: 32, s: true }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(102, 116)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(2)), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(26)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(26))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { pad_bits_after: Some(l(2)), lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { cond: Some(b(Bop::Ge, b(Bop::And, X::F(1), l(3)), l(2))), ..FieldD::new("g5", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bytes: Some(l(2)), pad_bytes_before: Some(l(3)), ..FieldD::new("g6", Ty::Int { w: 16, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g7", Ty::Int { w: 32, s: false }) }, FieldD { pad_bits_before: Some(l(3)), lim: Lim::Count(X::F(7)), ..FieldD::new("g8", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct FS78 {
    #[deku(bits = 5)]
    pub f0: u16,
    #[deku(count = "((*f0 as i128) + 1)")]
    pub f1: Vec<u32>,
    pub f2: isize,
    #[deku(skip, default = "(199) as u8")]
    pub f3: u8,
}
impl Conv for FS78 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS78 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_FS78() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS78", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(0), l(1))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 64, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(199), l(0xff)))), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u32", bits = 8)]
pub enum FE79 {
    #[deku(id = "60")]
    V0 { #[deku(bits = 119, magic = b"\xea")] g0: i128, #[deku(bits = 8)] g1: u32, #[deku(bits = 41, bits_read = "((*g1 as i128) * 41)")] g2: Vec<isize>, #[deku(pad_bits_before = "2")] g3: bool, #[deku(pad_bytes_before = "1", until = "|v: &u8| ((*v as i128) == 0)")] g4: Vec<u8>, g5: [[u64; 2]; 2], #[deku(magic = b"\xff\x13\x03")] g6: u128 },
}
impl Conv for FE79 {
    fn tv(&self) -> Val { match self { FE79::V0 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE79::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, _ => panic!("shape") } }
}
pub fn d_FE79() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE79", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: Some(8), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(60)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(119)), magic: Some(b"\xea"), ..FieldD::new("g0", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(41)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(41))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { pad_bits_before: Some(l(2)), ..FieldD::new("g3", Ty::Bool) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("g5", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)), 2)) }, FieldD { magic: Some(b"\xff\x13\x03"), ..FieldD::new("g6", Ty::Int { w: 128, s: false }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "i16", bytes = 1)]
pub enum FE77 {
    #[deku(id = "15")]
    V0 { g0: FS78, g1: FE79, #[deku(bits = 29)] g2: usize, #[deku(skip, default = "(80) as u8")] g3: u8 },
    #[deku(id_pat = "_")]
    P { g0: i16, #[deku(pad_bytes_after = "3", skip, default = "(66) as u8")] g1: u8, g2: u64, g3: u8, #[deku(bits = 2, bits_read = "((*g3 as i128) * 2)")] g4: Vec<[u8; 2]>, #[deku(bits = 8)] g5: Option<u16>, g6: u8 },
}
impl Conv for FE77 {
    fn tv(&self) -> Val { match self { FE77::V0 { g0, g1, g2, g3 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), FE77::P { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE77::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(1, i) => { let _ = i; FE77::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, _ => panic!("shape") } }
}
pub fn d_FE77() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE77", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: None, bytes: Some(1) }, variants: vec![VariantD { name: "V0", id: Some(Val::N(15)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Named(d_FS78)) }, FieldD { ..FieldD::new("g1", Ty::Named(d_FE79)) }, FieldD { bits: Some(l(29)), ..FieldD::new("g2", Ty::Int { w: 64, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(80), l(0xff)))), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: true }) }, FieldD { pad_bytes_after: Some(l(3)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(66), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 64, s: false }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), lim: Lim::Bits(b(Bop::Mul, X::F(3), l(2))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)))) }, FieldD { bits: Some(l(8)), ..FieldD::new("g5", Ty::Opt(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("g6", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb", id_type = "u8")]
pub enum FE80 {
    #[deku(id = "38")]
    V0 { #[deku(until = "|v: &u16| ((*v as i128) == 0)")] g0: Vec<u16>, #[deku(skip, default = "(49) as u8")] g1: u8, #[deku(bits = "4")] g2: bool, g3: isize, #[deku(bits = 29)] g4: i128, #[deku(until = "|v: &u8| ((*v as i128) == 1)")] g5: Vec<u8> },
    #[deku(id = 21)]
    V1,
    #[deku(id = "26")]
    V2 { #[deku(bits = 8, update = "(g1.len() as i128)")] g0: u16, #[deku(bits = 29, bits_read = "((*g0 as i128) * 29)")] g1: Vec<u32>, #[deku(until = "|v: &u8| ((*v as i128) == 0)")] g2: Vec<u8>, g3: i8, g4: i128 },
    #[deku(id_pat = "114..=120")]
    P { g0: u8, #[deku(magic = b"\x30\xfe")] g1: [[isize; 2]; 2], g2: i32, #[deku(bits = 8, update = "(g4.len() as i128)")] g3: u16, #[deku(count = "((*g3 as i128) + 1)")] g4: Vec<u16>, #[deku(bits = 24)] g5: std::num::NonZeroU32, g6: u32, #[deku(until = "|v: &u16| ((*v as i128) == 0)")] g7: Vec<u16> },
}
impl Conv for FE80 {
    fn tv(&self) -> Val { match self { FE80::V0 { g0, g1, g2, g3, g4, g5 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), FE80::V1 => Val::Var(1, vec![]), FE80::V2 { g0, g1, g2, g3, g4 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), FE80::P { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE80::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(1, i) => { let _ = i; FE80::V1 }, Val::Var(2, i) => { let _ = i; FE80::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(3, i) => { let _ = i; FE80::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, _ => panic!("shape") } }
}
pub fn d_FE80() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE80", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(38)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(49), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("g2", Ty::Bool) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(29)), ..FieldD::new("g4", Ty::Int { w: 128, s: true }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "V1", id: Some(Val::N(21)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V2", id: Some(Val::N(26)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), update: Some(X::Len(1)), hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(29)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(29))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 8, s: true }) }, FieldD { ..FieldD::new("g4", Ty::Int { w: 128, s: true }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(114, 120)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { magic: Some(b"\x30\xfe"), ..FieldD::new("g1", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)), 2)) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(4)), hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(3), l(1))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(24)), ..FieldD::new("g5", Ty::NonZero { w: 32, s: false }) }, FieldD { ..FieldD::new("g6", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "u32")]
pub enum FE82 {
    #[deku(id = "18")]
    V0,
    #[deku(id = 20)]
    V1 { #[deku(bits = 2, magic = b"\x90")] g0: bool, #[deku(pad_bytes_before = "2")] g1: bool, #[deku(pad_bytes_after = "3")] g2: u32, g3: u8 },
    #[deku(id = "15")]
    V2 { #[deku(bits = "4", update = "(g1.len() as i128)")] g0: u32, #[deku(bits = 2, count = "((*g0 as i128) + 0)")] g1: Vec<bool>, g2: u16, #[deku(assert = "(((*g3 as i128) >= 3) && ((*g3 as i128) <= 90))")] g3: i8, #[deku(bits = 8, update = "(g5.len() as i128)")] g4: u8, #[deku(bits = 3, bits_read = "((*g4 as i128) * 3)")] g5: Vec<[u8; 2]>, #[deku(pad_bits_before = "3", skip, default = "(49) as u8")] g6: u8, #[deku(bits = 5)] g7: u16, #[deku(bytes_read = "((*g7 as i128) * 2)", magic = b"\x81\x5e")] g8: Box<[[u8; 2]]> },
    #[deku(id_pat = "_")]
    P { g0: u32, #[deku(bits = 8)] g1: u32, #[deku(bits = "1", count = "g1")] g2: Vec<u8>, #[deku(bits = 5, update = "(g4.len() as i128)")] g3: u8, #[deku(bits = 5, bits_read = "((*g3 as i128) * 5)")] g4: Box<[(i32, u8,)]> },
}
impl Conv for FE82 {
    fn tv(&self) -> Val { match self { FE82::V0 => Val::Var(0, vec![]), FE82::V1 { g0, g1, g2, g3 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), FE82::V2 { g0, g1, g2, g3, g4, g5, g6, g7, g8 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv()]), FE82::P { g0, g1, g2, g3, g4 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE82::V0 }, Val::Var(1, i) => { let _ = i; FE82::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(2, i) => { let _ = i; FE82::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]) } }, Val::Var(3, i) => { let _ = i; FE82::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_FE82() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE82", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(18)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V1", id: Some(Val::N(20)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(2)), magic: Some(b"\x90"), ..FieldD::new("g0", Ty::Bool) }, FieldD { pad_bytes_before: Some(l(2)), ..FieldD::new("g1", Ty::Bool) }, FieldD { pad_bytes_after: Some(l(3)), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V2", id: Some(Val::N(15)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), update: Some(X::Len(1)), hint: Hint::Range(0, 7), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(2)), lim: Lim::Count(b(Bop::Add, X::F(0), l(0))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(3), l(3)), b(Bop::Le, X::F(3), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g3", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(5)), hint: Hint::Range(0, 3), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(4), l(3))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)))) }, FieldD { pad_bits_before: Some(l(3)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(49), l(0xff)))), ..FieldD::new("g6", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 3), ..FieldD::new("g7", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(7), l(2))), magic: Some(b"\x81\x5e"), ..FieldD::new("g8", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(1)), lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(5)), update: Some(X::Len(4)), hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), lim: Lim::Bits(b(Bop::Mul, X::F(3), l(5))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: true }, Ty::Int { w: 8, s: false }])))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct FS81 {
    #[deku(bytes = 6)]
    pub f0: usize,
    pub f1: [FE82; 2],
    pub f2: bool,
}
impl Conv for FS81 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS81 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_FS81() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS81", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(6)), ..FieldD::new("f0", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Arr(Box::new(Ty::Named(d_FE82)), 2)) }, FieldD { ..FieldD::new("f2", Ty::Bool) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct FS83 {
    pub f0: isize,
    #[deku(bits = "4")]
    pub f1: (u8, u8,),
}
impl Conv for FS83 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS83 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_FS83() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS83", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(4)), ..FieldD::new("f1", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct FS85 {
    #[deku(bytes = 5)]
    pub f0: usize,
    pub f1: Option<u16>,
    pub f2: u16,
    #[deku(bits = 3, bits_read = "((*f2 as i128) * 3)")]
    pub f3: Box<[[u8; 2]]>,
    pub f4: u32,
    #[deku(bits = "4", count = "f4")]
    pub f5: Box<[bool]>,
    #[deku(bits = 81)]
    pub f6: i128,
    #[deku(bits = "4", cond = "(((*f0 as i128) & 3) >= 2)")]
    pub f7: Option<bool>,
}
impl Conv for FS85 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS85 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]) } }
}
pub fn d_FS85() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS85", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(5)), ..FieldD::new("f0", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Opt(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f2", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(3))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)))) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(4)), lim: Lim::Count(X::F(4)), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { bits: Some(l(81)), ..FieldD::new("f6", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(4)), cond: Some(b(Bop::Ge, b(Bop::And, X::F(0), l(3)), l(2))), ..FieldD::new("f7", Ty::Opt(Box::new(Ty::Bool))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u8")]
pub enum FE86 {
    #[deku(id = "21")]
    V0 { #[deku(pad_bytes_after = "2", until = "|v: &u16| ((*v as i128) == 0)")] g0: Vec<u16>, g1: u64, #[deku(until = "|v: &u8| ((*v as i128) == 0)")] g2: Vec<u8>, #[deku(bits = 8)] g3: std::num::NonZeroI8, g4: u16, g5: u32 },
    #[deku(id = 35)]
    V1 { g0: [i64; 2], #[deku(skip, default = "(94) as u8")] g1: u8, g2: i32, g3: u16, #[deku(bytes = "4", bits_read = "((*g3 as i128) * 32)")] g4: Box<[i64]> },
    #[deku(id = "16")]
    V2 { #[deku(bits = "1")] g0: u32, #[deku(update = "(g2.len() as i128)")] g1: u32, #[deku(count = "g1")] g2: Vec<u8>, #[deku(skip, default = "(56) as u8")] g3: u8 },
    #[deku(id_pat = "_")]
    P { g0: u8, #[deku(bits = 12)] g1: u16, g2: u32, #[deku(bits_read = "((*g2 as i128) * 8)")] g3: std::sync::Arc<[bool]>, #[deku(bits = "4")] g4: u8, #[deku(bits = 102, bits_read = "((*g4 as i128) * 102)")] g5: Vec<u128> },
}
impl Conv for FE86 {
    fn tv(&self) -> Val { match self { FE86::V0 { g0, g1, g2, g3, g4, g5 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), FE86::V1 { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), FE86::V2 { g0, g1, g2, g3 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), FE86::P { g0, g1, g2, g3, g4, g5 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE86::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(1, i) => { let _ = i; FE86::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(2, i) => { let _ = i; FE86::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(3, i) => { let _ = i; FE86::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, _ => panic!("shape") } }
}
pub fn d_FE86() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE86", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(21)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bytes_after: Some(l(2)), lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 64, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(8)), ..FieldD::new("g3", Ty::NonZero { w: 8, s: true }) }, FieldD { ..FieldD::new("g4", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("g5", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(35)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(94), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 32, s: true }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(4)), lim: Lim::Bits(b(Bop::Mul, X::F(3), l(32))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }] }, VariantD { name: "V2", id: Some(Val::N(16)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(1)), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { update: Some(X::Len(2)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(56), l(0xff)))), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(12)), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(2), l(8))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(102)), lim: Lim::Bits(b(Bop::Mul, X::F(4), l(102))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Int { w: 128, s: false }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct FS87 {
    #[deku(skip, default = "(36) as u8")]
    pub f0: u8,
    pub f1: u8,
    #[deku(count = "((*f1 as i128) + 1)")]
    pub f2: Vec<f64>,
    pub f3: std::num::NonZeroU8,
    pub f4: u32,
    #[deku(count = "f4")]
    pub f5: std::sync::Arc<[f64]>,
    pub f6: u8,
}
impl Conv for FS87 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FS87 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_FS87() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FS87", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(36), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Float { w: 64 }))) }, FieldD { ..FieldD::new("f3", Ty::NonZero { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(4)), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Float { w: 64 }))) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "i16", bytes = 2)]
pub enum FE84 {
    #[deku(id = "54")]
    V0 { g0: bool, #[deku(bits = "7")] g1: i16, #[deku(bits = "49")] g2: isize, #[deku(assert = "(((*g3 as i128) >= 3) && ((*g3 as i128) <= 90))")] g3: u8, g4: usize },
    #[deku(id = 45)]
    V1 { g0: u8, g1: FS85, g2: usize, g3: i16, #[deku(skip, default = "(124) as u8")] g4: u8, #[deku(bits = 8, update = "(g6.len() as i128)")] g5: u16, #[deku(bits = "19", bits_read = "((*g5 as i128) * 19)")] g6: Vec<u32> },
    #[deku(id = "4")]
    V2 { #[deku(pad_bits_after = "1", skip, default = "(173) as u8")] g0: u8, g1: u128 },
    #[deku(id = 25)]
    V3 { #[deku(pad_bytes_after = "3", skip, default = "(78) as u8")] g0: u8, g1: FE86, g2: u8, #[deku(count = "g2")] g3: Box<[(u16, u8,)]>, g4: FS87, g5: i64 },
    #[deku(id_pat = "_")]
    P { g0: i16, #[deku(assert = "(((*g1 as i128) >= 3) && ((*g1 as i128) <= 90))")] g1: i128, #[deku(bytes = "1")] g2: Box<u16>, #[deku(cond = "(((**g2 as i128) & 3) >= 1)")] g3: Option<u64> },
}
impl Conv for FE84 {
    fn tv(&self) -> Val { match self { FE84::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), FE84::V1 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), FE84::V2 { g0, g1 } => Val::Var(2, vec![g0.tv(), g1.tv()]), FE84::V3 { g0, g1, g2, g3, g4, g5 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), FE84::P { g0, g1, g2, g3 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; FE84::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(1, i) => { let _ = i; FE84::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(2, i) => { let _ = i; FE84::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; FE84::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(4, i) => { let _ = i; FE84::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_FE84() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FE84", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: None, bytes: Some(2) }, variants: vec![VariantD { name: "V0", id: Some(Val::N(54)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Bool) }, FieldD { bits: Some(l(7)), ..FieldD::new("g1", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(49)), ..FieldD::new("g2", Ty::Int { w: 64, s: true }) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(3), l(3)), b(Bop::Le, X::F(3), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g4", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(45)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Named(d_FS85)) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 16, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(124), l(0xff)))), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(6)), hint: Hint::Range(0, 9), ..FieldD::new("g5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(19)), lim: Lim::Bits(b(Bop::Mul, X::F(5), l(19))), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }] }, VariantD { name: "V2", id: Some(Val::N(4)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bits_after: Some(l(1)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(173), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 128, s: false }) }] }, VariantD { name: "V3", id: Some(Val::N(25)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bytes_after: Some(l(3)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(78), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Named(d_FE86)) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { ..FieldD::new("g4", Ty::Named(d_FS87)) }, FieldD { ..FieldD::new("g5", Ty::Int { w: 64, s: true }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: true }) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(1), l(3)), b(Bop::Le, X::F(1), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g1", Ty::Int { w: 128, s: true }) }, FieldD { bytes: Some(l(1)), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { cond: Some(b(Bop::Ge, b(Bop::And, X::F(2), l(3)), l(1))), ..FieldD::new("g3", Ty::Opt(Box::new(Ty::Int { w: 64, s: false }))) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

pub fn entries() -> Vec<Entry> {
    let mut v = vec![];
    v.push(Entry { name: "FS1", tags: &["bits", "bytes", "bytes_read", "count", "default", "pad", "skip", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_nz", "until", "update"], decl: d_FS1, ops: ops::<FS1>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "FS6", tags: &["assert", "bits", "bytes", "cond", "count", "default", "magic", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_opt", "ty_ptr", "ty_tup", "until"], decl: d_FS6, ops: ops::<FS6>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "FS10", tags: &["default", "order", "size", "skip", "ty_int"], decl: d_FS10, ops: ops::<FS10>(), deku_id: None, size_bits: Some((<FS10 as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "FS11", tags: &["bits", "bytes", "count", "default", "endian", "magic", "pad", "skip", "ty_arr", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "ty_tup", "until", "update"], decl: d_FS11, ops: ops::<FS11>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "FE15", tags: &["bits", "bytes_read", "count", "default", "endian", "enum", "id_pat", "magic", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_tup", "update"], decl: d_FE15, ops: ops::<FE15>(), deku_id: Some(deku_id::<FE15, u8>), size_bits: None });
    v.push(Entry { name: "FS18", tags: &["bits", "size", "ty_int"], decl: d_FS18, ops: ops::<FS18>(), deku_id: None, size_bits: Some((<FS18 as DekuSize>::SIZE_BITS, 2)) });
    v.push(Entry { name: "FE19", tags: &["assert", "bits", "bits_read", "bytes_read", "count", "default", "enum", "id_pat", "magic", "order", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup", "update"], decl: d_FE19, ops: ops::<FE19>(), deku_id: Some(deku_id::<FE19, u8>), size_bits: None });
    v.push(Entry { name: "FS22", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "id_pat", "magic", "pad", "ty_float", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup"], decl: d_FS22, ops: ops::<FS22>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "FS25", tags: &["bits", "count", "magic", "order", "pad", "read_all", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup"], decl: d_FS25, ops: ops::<FS25>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "FE27", tags: &["bits", "bits_read", "bytes", "count", "default", "endian", "enum", "id_pat", "magic", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_opt", "ty_ptr", "ty_tup", "until", "update"], decl: d_FE27, ops: ops::<FE27>(), deku_id: Some(deku_id::<FE27, u8>), size_bits: None });
    v.push(Entry { name: "FS30", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "default", "endian", "id_pat", "magic", "pad", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_ptr", "update"], decl: d_FS30, ops: ops::<FS30>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "FS32", tags: &["endian", "order", "size", "ty_int"], decl: d_FS32, ops: ops::<FS32>(), deku_id: None, size_bits: Some((<FS32 as DekuSize>::SIZE_BITS, 64)) });
    v.push(Entry { name: "FE33", tags: &["assert", "bits", "bits_read", "bytes", "cond", "count", "default", "endian", "enum", "id_pat", "magic", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_opt", "ty_ptr", "ty_tup", "until", "update"], decl: d_FE33, ops: ops::<FE33>(), deku_id: Some(deku_id::<FE33, u8>), size_bits: None });
    v.push(Entry { name: "FE36", tags: &["bits", "bits_read", "default", "endian", "enum", "id_pat", "skip", "ty_bool", "ty_int", "ty_list", "ty_nz"], decl: d_FE36, ops: ops::<FE36>(), deku_id: Some(deku_id::<FE36, i8>), size_bits: None });
    v.push(Entry { name: "FE37", tags: &["bits", "count", "endian", "enum", "order", "pad", "ty_int", "ty_list", "ty_ptr", "update"], decl: d_FE37, ops: ops::<FE37>(), deku_id: Some(deku_id::<FE37, u8>), size_bits: None });
    v.push(Entry { name: "FS38", tags: &["assert", "bits", "bits_read", "bytes", "bytes_read", "count", "default", "endian", "order", "pad", "skip", "ty_arr", "ty_float", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup", "update"], decl: d_FS38, ops: ops::<FS38>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "FS44", tags: &["assert", "bits", "count", "endian", "id_pat", "magic", "pad", "ty_arr", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "ty_tup", "update"], decl: d_FS44, ops: ops::<FS44>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "FS46", tags: &["bits", "endian", "order", "size", "ty_int"], decl: d_FS46, ops: ops::<FS46>(), deku_id: None, size_bits: Some((<FS46 as DekuSize>::SIZE_BITS, 181)) });
    v.push(Entry { name: "FE47", tags: &["assert", "bits", "bits_read", "bytes", "bytes_read", "cond", "count", "default", "endian", "enum", "id_pat", "magic", "order", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_opt", "ty_ptr", "ty_tup", "until"], decl: d_FE47, ops: ops::<FE47>(), deku_id: Some(deku_id::<FE47, u32>), size_bits: None });
    v.push(Entry { name: "FS52", tags: &["bits", "count", "endian", "order", "pad", "ty_bool", "ty_int", "ty_list"], decl: d_FS52, ops: ops::<FS52>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "FS53", tags: &["bits", "endian", "order", "size", "ty_arr", "ty_bool", "ty_int"], decl: d_FS53, ops: ops::<FS53>(), deku_id: None, size_bits: Some((<FS53 as DekuSize>::SIZE_BITS, 9)) });
    v.push(Entry { name: "FS54", tags: &["bytes", "bytes_read", "endian", "pad", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup", "until"], decl: d_FS54, ops: ops::<FS54>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "FE56", tags: &["assert", "bits", "bytes_read", "count", "endian", "enum", "id_pat", "magic", "pad", "ty_arr", "ty_float", "ty_int", "ty_list", "ty_named", "ty_opt", "ty_ptr", "ty_tup", "until"], decl: d_FE56, ops: ops::<FE56>(), deku_id: Some(deku_id::<FE56, u8>), size_bits: None });
    v.push(Entry { name: "FE59", tags: &["assert", "bits", "bits_read", "bytes", "count", "default", "endian", "enum", "id_pat", "magic", "pad", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup", "until", "update"], decl: d_FE59, ops: ops::<FE59>(), deku_id: Some(deku_id::<FE59, u16>), size_bits: None });
    v.push(Entry { name: "FS63", tags: &["bits", "bits_read", "bytes", "cond", "count", "default", "endian", "id_pat", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_opt", "ty_ptr", "ty_tup"], decl: d_FS63, ops: ops::<FS63>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "FS65", tags: &["assert", "bits", "bits_read", "bytes", "count", "default", "endian", "magic", "order", "pad", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_opt", "ty_ptr", "ty_tup", "update"], decl: d_FS65, ops: ops::<FS65>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "FS68", tags: &["bits", "bytes_read", "default", "endian", "pad", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_nz", "update"], decl: d_FS68, ops: ops::<FS68>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "FS69", tags: &["default", "order", "size", "skip", "ty_int"], decl: d_FS69, ops: ops::<FS69>(), deku_id: None, size_bits: Some((<FS69 as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "FS70", tags: &["bits", "endian", "size", "ty_int"], decl: d_FS70, ops: ops::<FS70>(), deku_id: None, size_bits: Some((<FS70 as DekuSize>::SIZE_BITS, 66)) });
    v.push(Entry { name: "FS71", tags: &["bits", "bits_read", "bytes", "count", "default", "endian", "pad", "read_all", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup", "update"], decl: d_FS71, ops: ops::<FS71>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "FE74", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "endian", "enum", "id_pat", "magic", "pad", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_opt", "ty_ptr", "until"], decl: d_FE74, ops: ops::<FE74>(), deku_id: Some(deku_id::<FE74, u8>), size_bits: None });
    v.push(Entry { name: "FE77", tags: &["bits", "bits_read", "count", "default", "endian", "enum", "id_pat", "magic", "pad", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_opt", "until"], decl: d_FE77, ops: ops::<FE77>(), deku_id: Some(deku_id::<FE77, i16>), size_bits: None });
    v.push(Entry { name: "FE80", tags: &["bits", "bits_read", "count", "default", "endian", "enum", "id_pat", "magic", "order", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_nz", "until", "update"], decl: d_FE80, ops: ops::<FE80>(), deku_id: Some(deku_id::<FE80, u8>), size_bits: None });
    v.push(Entry { name: "FS81", tags: &["assert", "bits", "bits_read", "bytes", "bytes_read", "count", "default", "endian", "id_pat", "magic", "order", "pad", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup"], decl: d_FS81, ops: ops::<FS81>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "FS83", tags: &["bits", "size", "ty_int", "ty_tup"], decl: d_FS83, ops: ops::<FS83>(), deku_id: None, size_bits: Some((<FS83 as DekuSize>::SIZE_BITS, 72)) });
    v.push(Entry { name: "FE84", tags: &["assert", "bits", "bits_read", "bytes", "cond", "count", "default", "endian", "enum", "id_pat", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_opt", "ty_ptr", "ty_tup", "until", "update"], decl: d_FE84, ops: ops::<FE84>(), deku_id: Some(deku_id::<FE84, i16>), size_bits: None });
    v
}
