// @generated by gen_zoo.py
#![allow(clippy::all, unused_parens, unused_variables, dead_code, non_camel_case_types, non_snake_case, unused_imports, unused_mut)]
use deku::prelude::*;
use std::sync::OnceLock;
use vcore::custom;
use vcore::model::*;
use vcore::ops::{deku_id, ops, Entry};
use vcore::val::{Conv, Val};

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb", id_type = "u8")]
pub enum EE1 {
    #[deku(id = 27)]
    V0 { #[deku(bits = "16")] g0: i16, #[deku(bits = 5)] g1: u8, #[deku(bytes_read = "((*g1 as i128) * 2)")] g2: Vec<(bool, u8,)>, #[deku(assert = "(((*g3 as i128) >= 3) && ((*g3 as i128) <= 90))", magic = b"\x05\x5a")] g3: u32, #[deku(bits = 9)] g4: u32 },
}
impl Conv for EE1 {
    fn tv(&self) -> Val { match self { EE1::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE1::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_EE1() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE1", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(27)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(16)), ..FieldD::new("g0", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(2))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Bool, Ty::Int { w: 8, s: false }])))) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(3), l(3)), b(Bop::Le, X::F(3), l(90)))), magic: Some(b"\x05\x5a"), hint: Hint::Range(3, 90), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(9)), ..FieldD::new("g4", Ty::Int { w: 32, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\x58", endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES3 {
    #[deku(update = "(self.f1.len() as i128)")]
    pub f0: u8,
    #[deku(bits = 8, count = "f0")]
    pub f1: Vec<std::num::NonZeroU32>,
    pub f2: usize,
    pub f3: (u64, u64,),
    #[deku(bits = 30)]
    pub f4: u32,
    #[deku(bits = 27)]
    pub f5: u32,
    pub f6: i64,
}
impl Conv for ES3 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES3 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_ES3() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES3", kind: Kind::Struct { fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 3), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::NonZero { w: 32, s: false }))) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("f3", Ty::Tup(vec![Ty::Int { w: 64, s: false }, Ty::Int { w: 64, s: false }])) }, FieldD { bits: Some(l(30)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(27)), ..FieldD::new("f5", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("f6", Ty::Int { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: Some(b"\x58"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "i8")]
pub enum EE4 {
    #[deku(id = 35)]
    V0 { #[deku(update = "(g1.len() as i128)")] g0: u16, #[deku(bytes_read = "((*g0 as i128) * 32)")] g1: std::sync::Arc<[[i128; 2]]>, #[deku(bits = 24)] g2: u32, #[deku(bytes = 2)] g3: u32, g4: u16, #[deku(count = "g4")] g5: Box<[[u16; 2]]>, #[deku(update = "(g7.len() as i128)")] g6: u32, #[deku(bytes = 3, count = "g6")] g7: Box<[usize]> },
    #[deku(id = "26")]
    V1 { #[deku(bits = 8, update = "(g1.len() as i128)")] g0: u8, #[deku(count = "g0")] g1: Vec<usize>, #[deku(bits = "4")] g2: i8, g3: [[i64; 2]; 2] },
    #[deku(id = 5)]
    V2 { #[deku(until = "|v: &u16| ((*v as i128) == 0)")] g0: Vec<u16>, #[deku(bits = 5)] g1: u8, #[deku(bits = 9, bits_read = "((*g1 as i128) * 9)")] g2: Vec<(isize, u8,)>, g3: u8, #[deku(count = "g3")] g4: Vec<i32>, #[deku(bits = 20, pad_bytes_before = "3")] g5: usize, g6: i128, #[deku(update = "(g8.len() as i128)")] g7: u16, #[deku(bits = 12, count = "g7")] g8: Vec<u16> },
    #[deku(id = "33")]
    V3 { g0: u8, #[deku(bits = 90, count = "g0")] g1: Vec<(u128, u8,)>, g2: u8, #[deku(count = "g2")] g3: Vec<[i32; 2]>, g4: [u32; 4], #[deku(bits = "61", pad_bytes_before = "1")] g5: i128 },
    #[deku(id_pat = "_")]
    P { g0: i8, g1: Option<u64>, g2: u8, #[deku(bits_read = "((*g2 as i128) * 32)")] g3: std::sync::Arc<[u32]>, #[deku(until = "|v: &u16| ((*v as i128) == 1)")] g4: Vec<u16> },
}
impl Conv for EE4 {
    fn tv(&self) -> Val { match self { EE4::V0 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), EE4::V1 { g0, g1, g2, g3 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), EE4::V2 { g0, g1, g2, g3, g4, g5, g6, g7, g8 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv()]), EE4::V3 { g0, g1, g2, g3, g4, g5 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), EE4::P { g0, g1, g2, g3, g4 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE4::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(1, i) => { let _ = i; EE4::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(2, i) => { let _ = i; EE4::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]) } }, Val::Var(3, i) => { let _ = i; EE4::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(4, i) => { let _ = i; EE4::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_EE4() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE4", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(35)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(32))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 128, s: true }), 2)))) }, FieldD { bits: Some(l(24)), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(2)), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g4", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(4)), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)))) }, FieldD { update: Some(X::Len(7)), hint: Hint::Range(0, 3), ..FieldD::new("g6", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Count(X::F(6)), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }] }, VariantD { name: "V1", id: Some(Val::N(26)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), update: Some(X::Len(1)), hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { bits: Some(l(4)), ..FieldD::new("g2", Ty::Int { w: 8, s: true }) }, FieldD { ..FieldD::new("g3", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)), 2)) }] }, VariantD { name: "V2", id: Some(Val::N(5)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(9)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(9))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 64, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 32, s: true }))) }, FieldD { bits: Some(l(20)), pad_bytes_before: Some(l(3)), ..FieldD::new("g5", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("g6", Ty::Int { w: 128, s: true }) }, FieldD { update: Some(X::Len(8)), hint: Hint::Range(0, 9), ..FieldD::new("g7", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(12)), lim: Lim::Count(X::F(7)), ..FieldD::new("g8", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }] }, VariantD { name: "V3", id: Some(Val::N(33)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(90)), lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 128, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: true }), 2)))) }, FieldD { ..FieldD::new("g4", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 4)) }, FieldD { bits: Some(l(61)), pad_bytes_before: Some(l(1)), ..FieldD::new("g5", Ty::Int { w: 128, s: true }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }, FieldD { ..FieldD::new("g1", Ty::Opt(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(2), l(32))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES5 {
    #[deku(bits = "1")]
    pub f0: bool,
    pub f1: u16,
}
impl Conv for ES5 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES5 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_ES5() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES5", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(1)), ..FieldD::new("f0", Ty::Bool) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES6 {
    #[deku(bits = 8)]
    pub f0: u32,
    #[deku(count = "f0")]
    pub f1: Vec<u128>,
    pub f2: [[u8; 2]; 2],
}
impl Conv for ES6 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES6 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_ES6() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES6", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 128, s: false }))) }, FieldD { ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)), 2)) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES7 {
    pub f0: (u8, u8,),
    pub f1: [u64; 1],
    pub f2: f32,
    pub f3: u16,
    #[deku(count = "((*f3 as i128) + 0)")]
    pub f4: Vec<(u128, u8,)>,
}
impl Conv for ES7 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES7 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_ES7() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES7", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])) }, FieldD { ..FieldD::new("f1", Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 1)) }, FieldD { ..FieldD::new("f2", Ty::Float { w: 32 }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("f3", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(3), l(0))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 128, s: false }, Ty::Int { w: 8, s: false }])))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES8 {
    pub f0: u16,
}
impl Conv for ES8 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES8 { f0: Conv::fv(&i[0]) } }
}
pub fn d_ES8() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES8", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", id_type = "u8", bits = 5)]
pub enum EE2 {
    #[deku(id = 7)]
    V0,
    #[deku(id = "1")]
    V1 { #[deku(bytes = 2)] g0: (i32, i32,), #[deku(pad_bytes_after = "3")] g1: u32, #[deku(bits = 32)] g2: u32, #[deku(bits = "4", update = "(g4.len() as i128)")] g3: u8, #[deku(count = "g3")] g4: Vec<ES3> },
    #[deku(id = 14)]
    V2 { g0: EE4, g1: u8, #[deku(count = "g1")] g2: Box<[ES5]>, #[deku(update = "(g4.len() as i128)")] g3: u32, #[deku(bytes_read = "((*g3 as i128) * 32)", magic = b"\x6e\xb2\xce")] g4: std::sync::Arc<[[i128; 2]]>, #[deku(assert = "(((*g5 as i128) >= 3) && ((*g5 as i128) <= 90))")] g5: u64, g6: u8, #[deku(count = "g6")] g7: Box<[ES6]> },
    #[deku(id = "5")]
    V3 { #[deku(bits = 54, pad_bytes_before = "2")] g0: isize, #[deku(bits = 8)] g1: u16, #[deku(count = "((*g1 as i128) + 1)")] g2: Vec<ES7>, g3: i64, #[deku(update = "(g5.len() as i128)")] g4: u16, #[deku(bytes_read = "((*g4 as i128) * 1)")] g5: Vec<i8>, g6: (ES8, ES8,), #[deku(bits = 8)] g7: u16 },
    #[deku(id_pat = "_")]
    P { g0: u8, #[deku(bits = 23)] g1: u32, #[deku(skip, default = "(97) as u8")] g2: u8, #[deku(bits = 6)] g3: u8, #[deku(bits = 8, update = "(g5.len() as i128)")] g4: u32, #[deku(count = "g4")] g5: Box<[[std::num::NonZeroIsize; 2]]>, #[deku(bytes = "1")] g6: Box<u16> },
}
impl Conv for EE2 {
    fn tv(&self) -> Val { match self { EE2::V0 => Val::Var(0, vec![]), EE2::V1 { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), EE2::V2 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), EE2::V3 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), EE2::P { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE2::V0 }, Val::Var(1, i) => { let _ = i; EE2::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(2, i) => { let _ = i; EE2::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(3, i) => { let _ = i; EE2::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(4, i) => { let _ = i; EE2::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, _ => panic!("shape") } }
}
pub fn d_EE2() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE2", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(5), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V1", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bytes: Some(l(2)), ..FieldD::new("g0", Ty::Tup(vec![Ty::Int { w: 32, s: true }, Ty::Int { w: 32, s: true }])) }, FieldD { pad_bytes_after: Some(l(3)), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(32)), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(4)), update: Some(X::Len(4)), hint: Hint::Range(0, 7), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Named(d_ES3)))) }] }, VariantD { name: "V2", id: Some(Val::N(14)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Named(d_EE4)) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Named(d_ES5)))) }, FieldD { update: Some(X::Len(4)), hint: Hint::Range(0, 3), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(3), l(32))), magic: Some(b"\x6e\xb2\xce"), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 128, s: true }), 2)))) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(5), l(3)), b(Bop::Le, X::F(5), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g5", Ty::Int { w: 64, s: false }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g6", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(6)), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Named(d_ES6)))) }] }, VariantD { name: "V3", id: Some(Val::N(5)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(54)), pad_bytes_before: Some(l(2)), ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Named(d_ES7)))) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 64, s: true }) }, FieldD { update: Some(X::Len(5)), hint: Hint::Range(0, 6), ..FieldD::new("g4", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(4), l(1))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { ..FieldD::new("g6", Ty::Tup(vec![Ty::Named(d_ES8), Ty::Named(d_ES8)])) }, FieldD { bits: Some(l(8)), ..FieldD::new("g7", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(23)), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(97), l(0xff)))), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(6)), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(5)), hint: Hint::Range(0, 6), ..FieldD::new("g4", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(4)), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::NonZero { w: 64, s: true }), 2)))) }, FieldD { bytes: Some(l(1)), ..FieldD::new("g6", Ty::Int { w: 16, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct ES9 {
    #[deku(skip, default = "(25) as u8")]
    pub f0: u8,
}
impl Conv for ES9 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES9 { f0: Conv::fv(&i[0]) } }
}
pub fn d_ES9() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES9", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(25), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "i8", bits = 7)]
pub enum EE11 {
    #[deku(id = "34")]
    V0 { #[deku(bits = 8)] g0: u8, #[deku(bits_read = "((*g0 as i128) * 16)")] g1: Box<[u16]> },
    #[deku(id = 60)]
    V1 { g0: u128, g1: u8, #[deku(bits = 5)] g2: u8, #[deku(bits = "1", count = "g2")] g3: Box<[u16]>, #[deku(bits = "16")] g4: i32, #[deku(bits = 8)] g5: u16, #[deku(count = "g5")] g6: Vec<u16> },
    #[deku(id = "12")]
    V2 { g0: [[u128; 2]; 2], #[deku(bits = 8, update = "(g2.len() as i128)")] g1: u8, #[deku(bits_read = "((*g1 as i128) * 16)")] g2: std::sync::Arc<[i16]> },
}
impl Conv for EE11 {
    fn tv(&self) -> Val { match self { EE11::V0 { g0, g1 } => Val::Var(0, vec![g0.tv(), g1.tv()]), EE11::V1 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), EE11::V2 { g0, g1, g2 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE11::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(1, i) => { let _ = i; EE11::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(2, i) => { let _ = i; EE11::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_EE11() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE11", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: Some(7), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(34)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(0), l(16))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }] }, VariantD { name: "V1", id: Some(Val::N(60)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(1)), lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(16)), ..FieldD::new("g4", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g5", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(5)), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }] }, VariantD { name: "V2", id: Some(Val::N(12)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 128, s: false }), 2)), 2)) }, FieldD { bits: Some(l(8)), update: Some(X::Len(2)), hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(1), l(16))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct ES10 {
    pub f0: isize,
    #[deku(skip, default = "(105) as u8")]
    pub f1: u8,
    #[deku(bits = 8)]
    pub f2: std::num::NonZeroU16,
    pub f3: i16,
    #[deku(bits = "4", update = "(self.f5.len() as i128)")]
    pub f4: u16,
    #[deku(count = "f4")]
    pub f5: std::sync::Arc<[EE11]>,
}
impl Conv for ES10 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES10 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_ES10() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES10", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(105), l(0xff)))), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), ..FieldD::new("f2", Ty::NonZero { w: 16, s: false }) }, FieldD { ..FieldD::new("f3", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(4)), update: Some(X::Len(5)), hint: Hint::Range(0, 7), ..FieldD::new("f4", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(4)), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Named(d_EE11)))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u32", bytes = 4)]
pub enum EE13 {
    #[deku(id = "15")]
    V0 { #[deku(bits = "4")] g0: bool, g1: u32, #[deku(bytes = 3, bits_read = "((*g1 as i128) * 24)")] g2: Vec<[u32; 2]>, g3: i128, g4: u32 },
    #[deku(id = 12)]
    V1 { #[deku(skip, default = "(145) as u8")] g0: u8, g1: u8, #[deku(bits_read = "((*g1 as i128) * 8)")] g2: Vec<bool>, #[deku(bits = 2)] g3: u8, g4: u32, #[deku(update = "(g6.len() as i128)")] g5: u16, #[deku(bits_read = "((*g5 as i128) * 32)")] g6: Vec<i32>, #[deku(bits = "4")] g7: [bool; 2] },
    #[deku(id = "3")]
    V2 { g0: std::num::NonZeroI8, #[deku(bits = 8, update = "(g2.len() as i128)")] g1: u8, #[deku(count = "g1")] g2: Vec<(f64, u8,)>, #[deku(skip, default = "(131) as u8")] g3: u8, g4: u16, #[deku(count = "((*g4 as i128) + 2)")] g5: Vec<i8> },
    #[deku(id_pat = "_")]
    P { g0: u32, #[deku(pad_bits_before = "1")] g1: i64, g2: u8, #[deku(bits = "10", count = "g2")] g3: Vec<[isize; 2]> },
}
impl Conv for EE13 {
    fn tv(&self) -> Val { match self { EE13::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), EE13::V1 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), EE13::V2 { g0, g1, g2, g3, g4, g5 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), EE13::P { g0, g1, g2, g3 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE13::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(1, i) => { let _ = i; EE13::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(2, i) => { let _ = i; EE13::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(3, i) => { let _ = i; EE13::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_EE13() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE13", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: Some(4) }, variants: vec![VariantD { name: "V0", id: Some(Val::N(15)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("g0", Ty::Bool) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(24))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)))) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 128, s: true }) }, FieldD { ..FieldD::new("g4", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(12)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(145), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(1), l(8))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { bits: Some(l(2)), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g4", Ty::Int { w: 32, s: false }) }, FieldD { update: Some(X::Len(6)), hint: Hint::Range(0, 9), ..FieldD::new("g5", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(5), l(32))), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Int { w: 32, s: true }))) }, FieldD { bits: Some(l(4)), ..FieldD::new("g7", Ty::Arr(Box::new(Ty::Bool), 2)) }] }, VariantD { name: "V2", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::NonZero { w: 8, s: true }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(2)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Float { w: 64 }, Ty::Int { w: 8, s: false }])))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(131), l(0xff)))), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g4", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(4), l(2))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { pad_bits_before: Some(l(1)), ..FieldD::new("g1", Ty::Int { w: 64, s: true }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(10)), lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES14 {
    #[deku(update = "(self.f1.len() as i128)")]
    pub f0: u8,
    #[deku(bits_read = "((*f0 as i128) * 8)", magic = b"\x1c")]
    pub f1: Vec<bool>,
    #[deku(bits = "16")]
    pub f2: i128,
    #[deku(bits = 8)]
    pub f3: u32,
    #[deku(bits_read = "((*f3 as i128) * 8)")]
    pub f4: std::sync::Arc<[u8]>,
    pub f5: bool,
}
impl Conv for ES14 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES14 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_ES14() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES14", kind: Kind::Struct { fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 9), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(0), l(8))), magic: Some(b"\x1c"), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { bits: Some(l(16)), ..FieldD::new("f2", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("f3", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(3), l(8))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("f5", Ty::Bool) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES15 {
    #[deku(update = "(self.f1.len() as i128)")]
    pub f0: u8,
    #[deku(count = "((*f0 as i128) + 0)", magic = b"\xea")]
    pub f1: Box<[i16]>,
}
impl Conv for ES15 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES15 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_ES15() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES15", kind: Kind::Struct { fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 3), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(0), l(0))), magic: Some(b"\xea"), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "i8", bits = 3)]
pub enum EE12 {
    #[deku(id = "2")]
    V0 { g0: EE13, g1: ES14, #[deku(pad_bits_before = "2")] g2: u8, #[deku(assert = "(((*g3 as i128) >= 3) && ((*g3 as i128) <= 90))")] g3: i32 },
    #[deku(id = 0)]
    V1 { #[deku(bits = 8)] g0: std::num::NonZeroU16, #[deku(bits = "1")] g1: u8, g2: u8, #[deku(count = "g2")] g3: Box<[[u8; 2]]>, #[deku(bits = 8)] g4: u32, #[deku(count = "((*g4 as i128) + 0)")] g5: Vec<[i32; 2]>, #[deku(bits = "4")] g6: u8, #[deku(pad_bits_before = "2")] g7: ES15 },
    #[deku(id_pat = "0..=2")]
    P { g0: i8, #[deku(until = "|v: &i8| ((*v as i128) == 0)")] g1: Vec<i8>, #[deku(bits = "49")] g2: usize },
}
impl Conv for EE12 {
    fn tv(&self) -> Val { match self { EE12::V0 { g0, g1, g2, g3 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), EE12::V1 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), EE12::P { g0, g1, g2 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE12::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(1, i) => { let _ = i; EE12::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(2, i) => { let _ = i; EE12::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_EE12() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE12", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: Some(3), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Named(d_EE13)) }, FieldD { ..FieldD::new("g1", Ty::Named(d_ES14)) }, FieldD { pad_bits_before: Some(l(2)), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(3), l(3)), b(Bop::Le, X::F(3), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g3", Ty::Int { w: 32, s: true }) }] }, VariantD { name: "V1", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), ..FieldD::new("g0", Ty::NonZero { w: 16, s: false }) }, FieldD { bits: Some(l(1)), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g4", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(4), l(0))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: true }), 2)))) }, FieldD { bits: Some(l(4)), ..FieldD::new("g6", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(l(2)), ..FieldD::new("g7", Ty::Named(d_ES15)) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(0, 2)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(49)), ..FieldD::new("g2", Ty::Int { w: 64, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES17 {
    #[deku(bits = 5)]
    pub f0: u8,
    #[deku(bits = 33)]
    pub f1: usize,
    #[deku(pad_bits_before = "1", until = "|v: &u8| ((*v as i128) == 1)")]
    pub f2: Vec<u8>,
    pub f3: u32,
    #[deku(count = "((*f3 as i128) + 2)", pad_bits_before = "2")]
    pub f4: Vec<(i8, u8,)>,
    pub f5: [[u64; 2]; 2],
}
impl Conv for ES17 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES17 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_ES17() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES17", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(33)), ..FieldD::new("f1", Ty::Int { w: 64, s: false }) }, FieldD { pad_bits_before: Some(l(1)), lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("f3", Ty::Int { w: 32, s: false }) }, FieldD { pad_bits_before: Some(l(2)), lim: Lim::Count(b(Bop::Add, X::F(3), l(2))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { ..FieldD::new("f5", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)), 2)) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", id_type = "i16", bits = 8, id_endian = "little")]
pub enum EE16 {
    #[deku(id = "32")]
    V0 { g0: i32, #[deku(bits = 56)] g1: u64 },
    #[deku(id = 16)]
    V1 { g0: u16, #[deku(count = "((*g0 as i128) + 0)")] g1: std::sync::Arc<[ES17]>, #[deku(bytes = 5)] g2: isize, #[deku(bytes = "1")] g3: i16, #[deku(skip, default = "(193) as u8")] g4: u8, #[deku(until = "|v: &i8| ((*v as i128) == 1)")] g5: Vec<i8>, #[deku(bits = 5)] g6: u8, #[deku(bits = "19", bits_read = "((*g6 as i128) * 19)")] g7: Vec<usize> },
    #[deku(id_pat = "1..=23")]
    P { g0: i16, #[deku(until = "|v: &u16| ((*v as i128) == 0)")] g1: Vec<u16>, #[deku(bits = 20)] g2: Option<isize>, g3: u128, #[deku(bytes = 8, cond = "(((*g3 as i128) & 3) >= 2)")] g4: Option<i64> },
}
impl Conv for EE16 {
    fn tv(&self) -> Val { match self { EE16::V0 { g0, g1 } => Val::Var(0, vec![g0.tv(), g1.tv()]), EE16::V1 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), EE16::P { g0, g1, g2, g3, g4 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE16::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(1, i) => { let _ = i; EE16::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(2, i) => { let _ = i; EE16::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_EE16() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE16", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: Some(EndianSpec::Lit(E::Le)), order: None, bits: Some(8), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(32)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(56)), ..FieldD::new("g1", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(16)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(0), l(0))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Named(d_ES17)))) }, FieldD { bytes: Some(l(5)), ..FieldD::new("g2", Ty::Int { w: 64, s: true }) }, FieldD { bytes: Some(l(1)), ..FieldD::new("g3", Ty::Int { w: 16, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(193), l(0xff)))), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 3), ..FieldD::new("g6", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(19)), lim: Lim::Bits(b(Bop::Mul, X::F(6), l(19))), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(1, 23)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: true }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(20)), ..FieldD::new("g2", Ty::Opt(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 128, s: false }) }, FieldD { bytes: Some(l(8)), cond: Some(b(Bop::Ge, b(Bop::And, X::F(3), l(3)), l(2))), ..FieldD::new("g4", Ty::Opt(Box::new(Ty::Int { w: 64, s: true }))) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb", id_type = "i8", bits = 3)]
pub enum EE18 {
    #[deku(id = "1")]
    V0 { g0: i64 },
    #[deku(id_pat = "_")]
    P { g0: i8, #[deku(skip, default = "(138) as u8")] g1: u8, #[deku(bits = 5)] g2: u8, #[deku(bits = "16", count = "((*g2 as i128) + 0)")] g3: Box<[[std::num::NonZeroI16; 2]]> },
}
impl Conv for EE18 {
    fn tv(&self) -> Val { match self { EE18::V0 { g0 } => Val::Var(0, vec![g0.tv()]), EE18::P { g0, g1, g2, g3 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE18::V0 { g0: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EE18::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_EE18() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE18", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: Some(3), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(138), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(16)), lim: Lim::Count(b(Bop::Add, X::F(2), l(0))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::NonZero { w: 16, s: true }), 2)))) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "i16", bits = 7)]
pub enum EE21 {
    #[deku(id = "26")]
    V0 { #[deku(skip, default = "(56) as u8")] g0: u8, #[deku(bits = 8)] g1: u8, #[deku(bits = 30, bits_read = "((*g1 as i128) * 30)")] g2: Vec<(i64, u8,)>, #[deku(bits = "4")] g3: u32, #[deku(bits = "7", count = "((*g3 as i128) + 0)")] g4: Vec<(i32, u8,)>, #[deku(bits = 8, update = "(g6.len() as i128)")] g5: u8, #[deku(bits = 11, count = "g5")] g6: Vec<u32>, #[deku(until = "|v: &i8| ((*v as i128) == 0)")] g7: Vec<i8>, #[deku(bits = "13")] g8: i16 },
    #[deku(id = 17)]
    V1 { #[deku(bits = 5, update = "(g1.len() as i128)")] g0: u32, #[deku(bits = 45, bits_read = "((*g0 as i128) * 45)")] g1: Vec<i64>, #[deku(bits = "28")] g2: Option<i64>, #[deku(bits = 3)] g3: i8, #[deku(bits = 8)] g4: u32, #[deku(count = "g4")] g5: Box<[f64]>, g6: u16 },
    #[deku(id = "18")]
    V2,
    #[deku(id_pat = "_")]
    P { g0: i16, #[deku(bits = "16")] g1: u16, #[deku(bits = 5)] g2: u8, #[deku(bytes_read = "((*g2 as i128) * 2)")] g3: std::sync::Arc<[u16]>, g4: [[u32; 2]; 2] },
}
impl Conv for EE21 {
    fn tv(&self) -> Val { match self { EE21::V0 { g0, g1, g2, g3, g4, g5, g6, g7, g8 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv()]), EE21::V1 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), EE21::V2 => Val::Var(2, vec![]), EE21::P { g0, g1, g2, g3, g4 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE21::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]) } }, Val::Var(1, i) => { let _ = i; EE21::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(2, i) => { let _ = i; EE21::V2 }, Val::Var(3, i) => { let _ = i; EE21::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_EE21() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE21", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: Some(7), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(26)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(56), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(30)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(30))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 64, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), lim: Lim::Count(b(Bop::Add, X::F(3), l(0))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(8)), update: Some(X::Len(6)), hint: Hint::Range(0, 6), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), lim: Lim::Count(X::F(5)), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(13)), ..FieldD::new("g8", Ty::Int { w: 16, s: true }) }] }, VariantD { name: "V1", id: Some(Val::N(17)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(5)), update: Some(X::Len(1)), hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(45)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(45))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { bits: Some(l(28)), ..FieldD::new("g2", Ty::Opt(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { bits: Some(l(3)), ..FieldD::new("g3", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g4", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(4)), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Float { w: 64 }))) }, FieldD { ..FieldD::new("g6", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V2", id: Some(Val::N(18)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(16)), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(2), l(2))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("g4", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)), 2)) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct ES20 {
    #[deku(assert = "(((*f0 as i128) >= 3) && ((*f0 as i128) <= 90))")]
    pub f0: u64,
    #[deku(bytes = "4")]
    pub f1: u32,
    #[deku(bits = 8, update = "(self.f3.len() as i128)")]
    pub f2: u32,
    #[deku(bits = 113, count = "f2", pad_bits_after = "1")]
    pub f3: std::sync::Arc<[i128]>,
    #[deku(bits = "1")]
    pub f4: bool,
    pub f5: EE21,
    #[deku(cond = "(((*f1 as i128) & 3) >= 1)")]
    pub f6: Option<u64>,
}
impl Conv for ES20 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES20 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_ES20() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES20", kind: Kind::Struct { fields: vec![FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(0), l(3)), b(Bop::Le, X::F(0), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("f0", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(4)), ..FieldD::new("f1", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(3)), hint: Hint::Range(0, 9), ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(113)), pad_bits_after: Some(l(1)), lim: Lim::Count(X::F(2)), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 128, s: true }))) }, FieldD { bits: Some(l(1)), ..FieldD::new("f4", Ty::Bool) }, FieldD { ..FieldD::new("f5", Ty::Named(d_EE21)) }, FieldD { cond: Some(b(Bop::Ge, b(Bop::And, X::F(1), l(3)), l(1))), ..FieldD::new("f6", Ty::Opt(Box::new(Ty::Int { w: 64, s: false }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct ES19 {
    pub f0: ES20,
}
impl Conv for ES19 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES19 { f0: Conv::fv(&i[0]) } }
}
pub fn d_ES19() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES19", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Named(d_ES20)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "i16")]
pub enum EE22 {
    #[deku(id = "53")]
    V0 { #[deku(bits = 8)] g0: u32, #[deku(bytes_read = "((*g0 as i128) * 8)")] g1: Vec<usize>, #[deku(skip, default = "(167) as u8")] g2: u8 },
}
impl Conv for EE22 {
    fn tv(&self) -> Val { match self { EE22::V0 { g0, g1, g2 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE22::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_EE22() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE22", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(53)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(167), l(0xff)))), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u16")]
pub enum EE25 {
    #[deku(id = "55")]
    V0 { #[deku(bits = "46", pad_bits_after = "3")] g0: [[i128; 2]; 2], #[deku(update = "(g2.len() as i128)")] g1: u8, #[deku(bytes = 3, count = "g1")] g2: Vec<[u32; 2]>, #[deku(bits = 21, pad_bytes_after = "1")] g3: isize, #[deku(bits = 8, update = "(g5.len() as i128)")] g4: u8, #[deku(bytes_read = "((*g4 as i128) * 2)")] g5: Vec<[u8; 2]>, g6: u8, #[deku(bits = "64", bits_read = "((*g6 as i128) * 64)")] g7: Vec<i64> },
    #[deku(id_pat = "13125..=21245")]
    P { g0: u16, g1: u32, #[deku(bytes_read = "((*g1 as i128) * 4)")] g2: Vec<u32>, #[deku(bits = 9)] g3: isize },
}
impl Conv for EE25 {
    fn tv(&self) -> Val { match self { EE25::V0 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), EE25::P { g0, g1, g2, g3 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE25::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(1, i) => { let _ = i; EE25::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_EE25() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE25", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(55)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(46)), pad_bits_after: Some(l(3)), ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 128, s: true }), 2)), 2)) }, FieldD { update: Some(X::Len(2)), hint: Hint::Range(0, 6), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)))) }, FieldD { bits: Some(l(21)), pad_bytes_after: Some(l(1)), ..FieldD::new("g3", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(5)), hint: Hint::Range(0, 9), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(4), l(2))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)))) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g6", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(64)), lim: Lim::Bits(b(Bop::Mul, X::F(6), l(64))), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(13125, 21245)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(4))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(9)), ..FieldD::new("g3", Ty::Int { w: 64, s: true }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u16", id_endian = "little")]
pub enum EE26 {
    #[deku(id = "8")]
    V0 { #[deku(bits = 2)] g0: bool, g1: i16, #[deku(bits = "4")] g2: u8, #[deku(count = "g2")] g3: std::sync::Arc<[i8]> },
    #[deku(id = 10)]
    V1 { #[deku(bits = "52")] g0: isize, #[deku(bits = "58")] g1: i64, #[deku(bytes = 2, magic = b"\x24\x02\x58")] g2: u32, #[deku(bits = 5)] g3: u32, #[deku(count = "g3")] g4: Box<[[usize; 2]]> },
}
impl Conv for EE26 {
    fn tv(&self) -> Val { match self { EE26::V0 { g0, g1, g2, g3 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), EE26::V1 { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE26::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(1, i) => { let _ = i; EE26::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_EE26() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE26", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: Some(EndianSpec::Lit(E::Le)), order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(8)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(2)), ..FieldD::new("g0", Ty::Bool) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }] }, VariantD { name: "V1", id: Some(Val::N(10)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(52)), ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(58)), ..FieldD::new("g1", Ty::Int { w: 64, s: true }) }, FieldD { bytes: Some(l(2)), magic: Some(b"\x24\x02\x58"), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES24 {
    #[deku(bits = 5)]
    pub f0: u16,
    #[deku(count = "((*f0 as i128) + 0)")]
    pub f1: Box<[isize]>,
    #[deku(update = "(self.f3.len() as i128)")]
    pub f2: u8,
    #[deku(bytes = "1", bytes_read = "((*f2 as i128) * 1)")]
    pub f3: Box<[i64]>,
    pub f4: [EE25; 2],
    pub f5: u8,
    #[deku(count = "f5")]
    pub f6: Box<[(bool, u8,)]>,
    pub f7: u32,
    #[deku(count = "f7", pad_bits_before = "3")]
    pub f8: Box<[EE26]>,
}
impl Conv for ES24 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES24 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_ES24() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES24", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), hint: Hint::Range(0, 3), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(0), l(0))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { update: Some(X::Len(3)), hint: Hint::Range(0, 3), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(1)), lim: Lim::Bytes(b(Bop::Mul, X::F(2), l(1))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { ..FieldD::new("f4", Ty::Arr(Box::new(Ty::Named(d_EE25)), 2)) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(5)), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Bool, Ty::Int { w: 8, s: false }])))) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f7", Ty::Int { w: 32, s: false }) }, FieldD { pad_bits_before: Some(l(3)), lim: Lim::Count(X::F(7)), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Named(d_EE26)))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct ES23 {
    #[deku(skip, default = "(19) as u8")]
    pub f0: u8,
    #[deku(bytes = "1")]
    pub f1: u32,
    #[deku(bits = "10")]
    pub f2: u16,
    pub f3: Box<ES24>,
    pub f4: u32,
    #[deku(bits = "7", count = "f4")]
    pub f5: std::sync::Arc<[u32]>,
}
impl Conv for ES23 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES23 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_ES23() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES23", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(19), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(1)), ..FieldD::new("f1", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(10)), ..FieldD::new("f2", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("f3", Ty::Named(d_ES24)) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), lim: Lim::Count(X::F(4)), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "u8", bits = 7)]
pub enum EE28 {
    #[deku(id = "39")]
    V0 { g0: [u64; 3] },
}
impl Conv for EE28 {
    fn tv(&self) -> Val { match self { EE28::V0 { g0 } => Val::Var(0, vec![g0.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE28::V0 { g0: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_EE28() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE28", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(7), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(39)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 3)) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct ES27 {
    #[deku(skip, default = "(114) as u8")]
    pub f0: u8,
    pub f1: EE28,
    pub f2: i128,
    #[deku(bits = "4")]
    pub f3: u32,
    #[deku(count = "((*f3 as i128) + 0)")]
    pub f4: Vec<i8>,
    #[deku(bits = 5)]
    pub f5: u32,
    #[deku(count = "((*f5 as i128) + 0)")]
    pub f6: Vec<[u128; 2]>,
}
impl Conv for ES27 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES27 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_ES27() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES27", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(114), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Named(d_EE28)) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f3", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(3), l(0))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 3), ..FieldD::new("f5", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(5), l(0))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 128, s: false }), 2)))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "msb", id_type = "u8")]
pub enum EE29 {
    #[deku(id = "13")]
    V0,
}
impl Conv for EE29 {
    fn tv(&self) -> Val { match self { EE29::V0 => Val::Var(0, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE29::V0 }, _ => panic!("shape") } }
}
pub fn d_EE29() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE29", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(13)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES31 {
    pub f0: u32,
    #[deku(bytes_read = "((*f0 as i128) * 1)")]
    pub f1: Vec<u8>,
    pub f2: [u8; 3],
    #[deku(skip, default = "(2) as u8")]
    pub f3: u8,
    pub f4: i8,
    #[deku(bits = 51)]
    pub f5: i64,
    pub f6: u8,
    #[deku(bits = 14, count = "((*f6 as i128) + 1)", pad_bytes_before = "3", magic = b"\xea\x01\xcc")]
    pub f7: Box<[u32]>,
}
impl Conv for ES31 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES31 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]) } }
}
pub fn d_ES31() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES31", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(1))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("f2", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(2), l(0xff)))), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(51)), ..FieldD::new("f5", Ty::Int { w: 64, s: true }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(14)), pad_bytes_before: Some(l(3)), lim: Lim::Count(b(Bop::Add, X::F(6), l(1))), magic: Some(b"\xea\x01\xcc"), ..FieldD::new("f7", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "i8", bits = 6)]
pub enum EE30 {
    #[deku(id = "12")]
    V0 { g0: f32, g1: u16, #[deku(bytes_read = "((*g1 as i128) * 2)")] g2: std::sync::Arc<[(i8, u8,)]>, #[deku(skip, default = "(159) as u8")] g3: u8 },
    #[deku(id = 4)]
    V1 { g0: i64, g1: ES31, g2: u16, #[deku(count = "((*g2 as i128) + 2)")] g3: Vec<[i32; 2]> },
    #[deku(id_pat = "4..=28")]
    P { g0: i8, #[deku(update = "(g2.len() as i128)")] g1: u8, #[deku(bytes_read = "((*g1 as i128) * 8)")] g2: Vec<u64>, #[deku(bits = 2)] g3: bool, #[deku(bits = 8, update = "(g5.len() as i128)")] g4: u8, #[deku(count = "g4", pad_bytes_after = "3")] g5: std::sync::Arc<[i16]>, #[deku(pad_bytes_before = "3")] g6: Option<bool> },
}
impl Conv for EE30 {
    fn tv(&self) -> Val { match self { EE30::V0 { g0, g1, g2, g3 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), EE30::V1 { g0, g1, g2, g3 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), EE30::P { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE30::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(1, i) => { let _ = i; EE30::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(2, i) => { let _ = i; EE30::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, _ => panic!("shape") } }
}
pub fn d_EE30() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE30", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: Some(6), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(12)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Float { w: 32 }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(2))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(159), l(0xff)))), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(4)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("g1", Ty::Named(d_ES31)) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(2), l(2))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: true }), 2)))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(4, 28)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }, FieldD { update: Some(X::Len(2)), hint: Hint::Range(0, 6), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(8))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { bits: Some(l(2)), ..FieldD::new("g3", Ty::Bool) }, FieldD { bits: Some(l(8)), update: Some(X::Len(5)), hint: Hint::Range(0, 6), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(l(3)), lim: Lim::Count(X::F(4)), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }, FieldD { pad_bytes_before: Some(l(3)), ..FieldD::new("g6", Ty::Opt(Box::new(Ty::Bool))) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(magic = b"\x3f\xd2", endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES33 {
    #[deku(skip, default = "(28) as u8")]
    pub f0: u8,
    pub f1: u8,
}
impl Conv for ES33 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES33 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_ES33() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES33", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(28), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: Some(b"\x3f\xd2"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES34 {
    #[deku(bits = 2, pad_bytes_before = "3")]
    pub f0: bool,
    pub f1: u8,
    #[deku(bits = 63)]
    pub f2: i128,
    #[deku(pad_bytes_before = "3")]
    pub f3: i64,
    pub f4: u64,
}
impl Conv for ES34 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES34 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_ES34() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES34", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(2)), pad_bytes_before: Some(l(3)), ..FieldD::new("f0", Ty::Bool) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(63)), ..FieldD::new("f2", Ty::Int { w: 128, s: true }) }, FieldD { pad_bytes_before: Some(l(3)), ..FieldD::new("f3", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("f4", Ty::Int { w: 64, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", id_type = "u32", bits = 3)]
pub enum EE32 {
    #[deku(id = "1")]
    V0 { g0: ES33 },
    #[deku(id = 2)]
    V1 { #[deku(until = "|v: &i8| ((*v as i128) == 1)")] g0: Vec<i8>, #[deku(skip, default = "(198) as u8")] g1: u8, g2: u8, #[deku(bits = 8, count = "g2")] g3: std::sync::Arc<[u8]>, #[deku(update = "(g5.len() as i128)")] g4: u32, #[deku(count = "((*g4 as i128) + 0)")] g5: Vec<[i64; 2]>, g6: ES34, g7: u32, #[deku(bits_read = "((*g7 as i128) * 64)")] g8: Box<[usize]> },
    #[deku(id = "0")]
    V2 { #[deku(skip, default = "(172) as u8")] g0: u8, g1: u32, g2: usize, #[deku(until = "|v: &i8| ((*v as i128) == 0)")] g3: Vec<i8>, #[deku(bits = 32)] g4: Option<u64>, #[deku(update = "(g6.len() as i128)")] g5: u8, #[deku(bits = "25", count = "g5")] g6: Box<[u32]> },
    #[deku(id = 3)]
    V3 { #[deku(bits = 47, pad_bits_after = "2")] g0: i64, #[deku(bits = 95)] g1: u128 },
    #[deku(id_pat = "_")]
    P { g0: u32, #[deku(skip, default = "(47) as u8")] g1: u8, g2: f64, #[deku(skip, default = "(38) as u8")] g3: u8, #[deku(pad_bits_after = "2")] g4: i32 },
}
impl Conv for EE32 {
    fn tv(&self) -> Val { match self { EE32::V0 { g0 } => Val::Var(0, vec![g0.tv()]), EE32::V1 { g0, g1, g2, g3, g4, g5, g6, g7, g8 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv()]), EE32::V2 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), EE32::V3 { g0, g1 } => Val::Var(3, vec![g0.tv(), g1.tv()]), EE32::P { g0, g1, g2, g3, g4 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE32::V0 { g0: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EE32::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]) } }, Val::Var(2, i) => { let _ = i; EE32::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(3, i) => { let _ = i; EE32::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(4, i) => { let _ = i; EE32::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_EE32() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE32", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: Some(3), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Named(d_ES33)) }] }, VariantD { name: "V1", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(198), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { update: Some(X::Len(5)), hint: Hint::Range(0, 6), ..FieldD::new("g4", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(4), l(0))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)))) }, FieldD { ..FieldD::new("g6", Ty::Named(d_ES34)) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g7", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(7), l(64))), ..FieldD::new("g8", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }] }, VariantD { name: "V2", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(172), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 64, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(32)), ..FieldD::new("g4", Ty::Opt(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { update: Some(X::Len(6)), hint: Hint::Range(0, 3), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(25)), lim: Lim::Count(X::F(5)), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }] }, VariantD { name: "V3", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(47)), pad_bits_after: Some(l(2)), ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(95)), ..FieldD::new("g1", Ty::Int { w: 128, s: false }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(47), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g2", Ty::Float { w: 64 }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(38), l(0xff)))), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(2)), ..FieldD::new("g4", Ty::Int { w: 32, s: true }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct ES35 {
    #[deku(bytes = 6)]
    pub f0: usize,
}
impl Conv for ES35 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES35 { f0: Conv::fv(&i[0]) } }
}
pub fn d_ES35() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES35", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(6)), ..FieldD::new("f0", Ty::Int { w: 64, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u8", bits = 3)]
pub enum EE37 {
    #[deku(id = "1")]
    V0,
    #[deku(id = 2)]
    V1 { #[deku(bits = 39)] g0: isize },
    #[deku(id = "3")]
    V2 { g0: u32, #[deku(bits = "4", bits_read = "((*g0 as i128) * 4)")] g1: std::sync::Arc<[(bool, u8,)]> },
    #[deku(id = 0)]
    V3,
}
impl Conv for EE37 {
    fn tv(&self) -> Val { match self { EE37::V0 => Val::Var(0, vec![]), EE37::V1 { g0 } => Val::Var(1, vec![g0.tv()]), EE37::V2 { g0, g1 } => Val::Var(2, vec![g0.tv(), g1.tv()]), EE37::V3 => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE37::V0 }, Val::Var(1, i) => { let _ = i; EE37::V1 { g0: Conv::fv(&i[0]) } }, Val::Var(2, i) => { let _ = i; EE37::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; EE37::V3 }, _ => panic!("shape") } }
}
pub fn d_EE37() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE37", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(3), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V1", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(39)), ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }] }, VariantD { name: "V2", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(4)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(4))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Bool, Ty::Int { w: 8, s: false }])))) }] }, VariantD { name: "V3", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u8", id_endian = "big")]
pub enum EE38 {
    #[deku(id = "47")]
    V0 { g0: u16, #[deku(count = "g0")] g1: Vec<[i64; 2]> },
}
impl Conv for EE38 {
    fn tv(&self) -> Val { match self { EE38::V0 { g0, g1 } => Val::Var(0, vec![g0.tv(), g1.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE38::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_EE38() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE38", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: Some(EndianSpec::Lit(E::Be)), order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(47)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct ES36 {
    #[deku(magic = b"\xf2")]
    pub f0: EE37,
    #[deku(bits = 3)]
    pub f1: Option<u16>,
    #[deku(update = "(self.f3.len() as i128)")]
    pub f2: u8,
    #[deku(count = "f2")]
    pub f3: Vec<EE38>,
    #[deku(skip, default = "(102) as u8", magic = b"\xb9\x68")]
    pub f4: u8,
    #[deku(bytes = "4")]
    pub f5: u32,
    #[deku(bits = "7")]
    pub f6: i16,
}
impl Conv for ES36 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES36 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_ES36() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES36", kind: Kind::Struct { fields: vec![FieldD { magic: Some(b"\xf2"), ..FieldD::new("f0", Ty::Named(d_EE37)) }, FieldD { bits: Some(l(3)), ..FieldD::new("f1", Ty::Opt(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { update: Some(X::Len(3)), hint: Hint::Range(0, 3), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Named(d_EE38)))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(102), l(0xff)))), magic: Some(b"\xb9\x68"), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(4)), ..FieldD::new("f5", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("f6", Ty::Int { w: 16, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u8", bits = 7)]
pub enum EE40 {
    #[deku(id = "5")]
    V0 { #[deku(bits = 5)] g0: u32, #[deku(count = "g0")] g1: Vec<std::num::NonZeroI16>, #[deku(skip, default = "(172) as u8")] g2: u8, g3: u8, #[deku(bits_read = "((*g3 as i128) * 64)")] g4: Vec<usize>, #[deku(bits = 8)] g5: u16, #[deku(bits = 2, bits_read = "((*g5 as i128) * 2)")] g6: Vec<[bool; 2]> },
    #[deku(id = 13)]
    V1 { #[deku(until = "|v: &u8| ((*v as i128) == 0)")] g0: Vec<u8>, #[deku(bytes = 5)] g1: isize, #[deku(bits = "1")] g2: [[bool; 2]; 2], #[deku(skip, default = "(111) as u8")] g3: u8 },
    #[deku(id = "41")]
    V2 { g0: usize, #[deku(until = "|v: &u16| ((*v as i128) == 1)")] g1: Vec<u16>, #[deku(until = "|v: &i8| ((*v as i128) == 0)")] g2: Vec<i8>, g3: u8, g4: f64 },
}
impl Conv for EE40 {
    fn tv(&self) -> Val { match self { EE40::V0 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), EE40::V1 { g0, g1, g2, g3 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), EE40::V2 { g0, g1, g2, g3, g4 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE40::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(1, i) => { let _ = i; EE40::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(2, i) => { let _ = i; EE40::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_EE40() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE40", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(7), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(5)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::NonZero { w: 16, s: true }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(172), l(0xff)))), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(3), l(64))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(2)), lim: Lim::Bits(b(Bop::Mul, X::F(5), l(2))), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Bool), 2)))) }] }, VariantD { name: "V1", id: Some(Val::N(13)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bytes: Some(l(5)), ..FieldD::new("g1", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(1)), ..FieldD::new("g2", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Bool), 2)), 2)) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(111), l(0xff)))), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V2", id: Some(Val::N(41)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 64, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g4", Ty::Float { w: 64 }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u16", bytes = 2)]
pub enum EE41 {
    #[deku(id = "44")]
    V0 { #[deku(bits = 8, update = "(g1.len() as i128)")] g0: u8, #[deku(count = "g0", pad_bytes_before = "2")] g1: Box<[std::num::NonZeroIsize]>, #[deku(bits = "1", magic = b"\x60\x2a\x17")] g2: u32 },
    #[deku(id = 46)]
    V1 { g0: u8, #[deku(bits_read = "((*g0 as i128) * 72)")] g1: std::sync::Arc<[(u64, u8,)]> },
    #[deku(id = "36")]
    V2 { #[deku(bits = 8)] g0: u32, #[deku(bytes_read = "((*g0 as i128) * 8)")] g1: Vec<u64>, g2: u8, #[deku(count = "g2")] g3: Vec<[i128; 2]>, #[deku(update = "(g5.len() as i128)")] g4: u16, #[deku(bits = 128, count = "g4")] g5: std::sync::Arc<[i128]>, g6: (u8, u8,), #[deku(bytes = "1")] g7: i64 },
}
impl Conv for EE41 {
    fn tv(&self) -> Val { match self { EE41::V0 { g0, g1, g2 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv()]), EE41::V1 { g0, g1 } => Val::Var(1, vec![g0.tv(), g1.tv()]), EE41::V2 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE41::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(1, i) => { let _ = i; EE41::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(2, i) => { let _ = i; EE41::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, _ => panic!("shape") } }
}
pub fn d_EE41() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE41", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: None, order: None, bits: None, bytes: Some(2) }, variants: vec![VariantD { name: "V0", id: Some(Val::N(44)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), update: Some(X::Len(1)), hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(2)), lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::NonZero { w: 64, s: true }))) }, FieldD { bits: Some(l(1)), magic: Some(b"\x60\x2a\x17"), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(46)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(0), l(72))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 64, s: false }, Ty::Int { w: 8, s: false }])))) }] }, VariantD { name: "V2", id: Some(Val::N(36)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 128, s: true }), 2)))) }, FieldD { update: Some(X::Len(5)), hint: Hint::Range(0, 6), ..FieldD::new("g4", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(128)), lim: Lim::Count(X::F(4)), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Int { w: 128, s: true }))) }, FieldD { ..FieldD::new("g6", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])) }, FieldD { bytes: Some(l(1)), ..FieldD::new("g7", Ty::Int { w: 64, s: true }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES42 {
    #[deku(bytes = 3, pad_bytes_before = "3", magic = b"\xd0\x26")]
    pub f0: i128,
    pub f1: u32,
    #[deku(bits = 3)]
    pub f2: u16,
    #[deku(bytes = "1")]
    pub f3: u16,
    #[deku(bits = 5)]
    pub f4: u8,
    #[deku(bits = "7", count = "((*f4 as i128) + 0)")]
    pub f5: Vec<i8>,
    #[deku(bits = "13", pad_bytes_before = "1")]
    pub f6: u32,
}
impl Conv for ES42 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES42 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_ES42() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES42", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(3)), pad_bytes_before: Some(l(3)), magic: Some(b"\xd0\x26"), ..FieldD::new("f0", Ty::Int { w: 128, s: true }) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(3)), ..FieldD::new("f2", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(1)), ..FieldD::new("f3", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(7)), lim: Lim::Count(b(Bop::Add, X::F(4), l(0))), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(13)), pad_bytes_before: Some(l(1)), ..FieldD::new("f6", Ty::Int { w: 32, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "u32", bits = 6)]
pub enum EE39 {
    #[deku(id = "3")]
    V0 { g0: u32, #[deku(bytes = "1", bits_read = "((*g0 as i128) * 8)", pad_bits_after = "1")] g1: Vec<(i32, u8,)>, #[deku(bytes = "1")] g2: i32, #[deku(pad_bytes_before = "1")] g3: EE40, g4: Box<f32> },
    #[deku(id = 30)]
    V1 { #[deku(magic = b"\x7d")] g0: EE41, #[deku(bytes = "1")] g1: u32, g2: ES42, #[deku(bits = "4")] g3: u8, #[deku(bits = "4", count = "g3")] g4: Vec<[bool; 2]> },
    #[deku(id = "6")]
    V2,
    #[deku(id_pat = "_")]
    P { g0: u32, #[deku(bits = 5, update = "(g2.len() as i128)")] g1: u32, #[deku(bytes = 2, count = "g1")] g2: std::sync::Arc<[u32]> },
}
impl Conv for EE39 {
    fn tv(&self) -> Val { match self { EE39::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), EE39::V1 { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), EE39::V2 => Val::Var(2, vec![]), EE39::P { g0, g1, g2 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE39::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(1, i) => { let _ = i; EE39::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(2, i) => { let _ = i; EE39::V2 }, Val::Var(3, i) => { let _ = i; EE39::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_EE39() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE39", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: Some(6), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(1)), pad_bits_after: Some(l(1)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { bytes: Some(l(1)), ..FieldD::new("g2", Ty::Int { w: 32, s: true }) }, FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("g3", Ty::Named(d_EE40)) }, FieldD { ..FieldD::new("g4", Ty::Float { w: 32 }) }] }, VariantD { name: "V1", id: Some(Val::N(30)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { magic: Some(b"\x7d"), ..FieldD::new("g0", Ty::Named(d_EE41)) }, FieldD { bytes: Some(l(1)), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("g2", Ty::Named(d_ES42)) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Bool), 2)))) }] }, VariantD { name: "V2", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(5)), update: Some(X::Len(2)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(2)), lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct ES45 {
    #[deku(bytes = 5)]
    pub f0: i128,
    #[deku(skip, default = "(104) as u8")]
    pub f1: u8,
    pub f2: u8,
    #[deku(bits = "4", update = "(self.f4.len() as i128)")]
    pub f3: u16,
    #[deku(count = "f3")]
    pub f4: Vec<(u32, u8,)>,
    #[deku(skip, default = "(76) as u8")]
    pub f5: u8,
}
impl Conv for ES45 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES45 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_ES45() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES45", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(5)), ..FieldD::new("f0", Ty::Int { w: 128, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(104), l(0xff)))), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), update: Some(X::Len(4)), hint: Hint::Range(0, 7), ..FieldD::new("f3", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(76), l(0xff)))), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct ES44 {
    #[deku(bits = "7")]
    pub f0: u8,
    pub f1: i16,
    pub f2: i16,
    #[deku(pad_bits_before = "2", until = "|v: &u16| ((*v as i128) == 1)")]
    pub f3: Vec<u16>,
    #[deku(skip, default = "(151) as u8")]
    pub f4: u8,
    #[deku(pad_bytes_before = "2")]
    pub f5: ES45,
}
impl Conv for ES44 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES44 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_ES44() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES44", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(7)), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 16, s: true }) }, FieldD { pad_bits_before: Some(l(2)), lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(151), l(0xff)))), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(2)), ..FieldD::new("f5", Ty::Named(d_ES45)) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct ES43 {
    #[deku(until = "|v: &u8| ((*v as i128) == 0)")]
    pub f0: Vec<u8>,
    pub f1: ES44,
    #[deku(bits = 5)]
    pub f2: i8,
    #[deku(skip, default = "(196) as u8")]
    pub f3: u8,
    pub f4: (u128, u128,),
    pub f5: bool,
}
impl Conv for ES43 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES43 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_ES43() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES43", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("f0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("f1", Ty::Named(d_ES44)) }, FieldD { bits: Some(l(5)), ..FieldD::new("f2", Ty::Int { w: 8, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(196), l(0xff)))), ..FieldD::new("f3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f4", Ty::Tup(vec![Ty::Int { w: 128, s: false }, Ty::Int { w: 128, s: false }])) }, FieldD { ..FieldD::new("f5", Ty::Bool) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "u32", bits = 4)]
pub enum EE47 {
    #[deku(id = "7")]
    V0,
    #[deku(id_pat = "2..=3")]
    P { g0: u32, g1: u8, #[deku(bits = "10", count = "((*g1 as i128) + 0)")] g2: std::sync::Arc<[i32]> },
}
impl Conv for EE47 {
    fn tv(&self) -> Val { match self { EE47::V0 => Val::Var(0, vec![]), EE47::P { g0, g1, g2 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE47::V0 }, Val::Var(1, i) => { let _ = i; EE47::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_EE47() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE47", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: Some(4), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(2, 3)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(10)), lim: Lim::Count(b(Bop::Add, X::F(1), l(0))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 32, s: true }))) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "u32", bytes = 3)]
pub enum EE46 {
    #[deku(id = "52")]
    V0 { #[deku(bits = 15)] g0: i64 },
    #[deku(id = 7)]
    V1 { #[deku(skip, default = "(141) as u8")] g0: u8, g1: bool, #[deku(skip, default = "(137) as u8")] g2: u8, #[deku(bits = "4")] g3: u16, #[deku(bits_read = "((*g3 as i128) * 16)")] g4: Vec<u16>, g5: bool, g6: u32, #[deku(bits = 20, count = "g6")] g7: std::sync::Arc<[u32]> },
    #[deku(id = "44")]
    V2 { g0: u32, #[deku(count = "((*g0 as i128) + 1)")] g1: std::sync::Arc<[EE47]> },
    #[deku(id_pat = "_")]
    P { g0: u32, g1: i16, g2: u8, #[deku(count = "g2")] g3: Box<[i16]> },
}
impl Conv for EE46 {
    fn tv(&self) -> Val { match self { EE46::V0 { g0 } => Val::Var(0, vec![g0.tv()]), EE46::V1 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), EE46::V2 { g0, g1 } => Val::Var(2, vec![g0.tv(), g1.tv()]), EE46::P { g0, g1, g2, g3 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE46::V0 { g0: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EE46::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(2, i) => { let _ = i; EE46::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; EE46::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_EE46() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE46", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: Some(3) }, variants: vec![VariantD { name: "V0", id: Some(Val::N(52)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(15)), ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }] }, VariantD { name: "V1", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(141), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Bool) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(137), l(0xff)))), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(3), l(16))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("g5", Ty::Bool) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g6", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(20)), lim: Lim::Count(X::F(6)), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }] }, VariantD { name: "V2", id: Some(Val::N(44)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(0), l(1))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Named(d_EE47)))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 16, s: true }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct ES49 {
    #[deku(update = "(self.f1.len() as i128)")]
    pub f0: u8,
    #[deku(count = "f0")]
    pub f1: std::sync::Arc<[u16]>,
    pub f2: u8,
    #[deku(bits = 53, bits_read = "((*f2 as i128) * 53)")]
    pub f3: std::sync::Arc<[u64]>,
    #[deku(pad_bytes_before = "1")]
    pub f4: std::num::NonZeroU16,
    #[deku(bits = "4")]
    pub f5: bool,
}
impl Conv for ES49 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES49 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_ES49() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES49", kind: Kind::Struct { fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 6), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(53)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(53))), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("f4", Ty::NonZero { w: 16, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("f5", Ty::Bool) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct ES50 {
    #[deku(bits = "70")]
    pub f0: i128,
    #[deku(bits = 21, pad_bits_after = "3")]
    pub f1: (u32, u32,),
    #[deku(bits = 12)]
    pub f2: i32,
    #[deku(bits = "4")]
    pub f3: i16,
    #[deku(bits = "22")]
    pub f4: u32,
    pub f5: u8,
    #[deku(bits = 5, count = "((*f5 as i128) + 2)")]
    pub f6: Vec<i16>,
}
impl Conv for ES50 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES50 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]) } }
}
pub fn d_ES50() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES50", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(70)), ..FieldD::new("f0", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(21)), pad_bits_after: Some(l(3)), ..FieldD::new("f1", Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { bits: Some(l(12)), ..FieldD::new("f2", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(4)), ..FieldD::new("f3", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(22)), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), lim: Lim::Count(b(Bop::Add, X::F(5), l(2))), ..FieldD::new("f6", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "i16")]
pub enum EE48 {
    #[deku(id = "20")]
    V0 { g0: isize, g1: u16, #[deku(bits = 8)] g2: u8, #[deku(count = "g2")] g3: Box<[ES49]>, g4: Box<ES50> },
    #[deku(id_pat = "1437..=28680")]
    P { g0: i16, g1: u16, #[deku(count = "((*g1 as i128) + 0)")] g2: std::sync::Arc<[std::num::NonZeroU32]>, g3: u8, #[deku(count = "((*g3 as i128) + 2)")] g4: Vec<u128>, #[deku(update = "(g6.len() as i128)")] g5: u8, #[deku(count = "g5")] g6: std::sync::Arc<[[u8; 2]]>, g7: i16, #[deku(bits = 8, update = "(g9.len() as i128)")] g8: u16, #[deku(bits = "1", count = "((*g8 as i128) + 0)")] g9: Vec<u8> },
}
impl Conv for EE48 {
    fn tv(&self) -> Val { match self { EE48::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), EE48::P { g0, g1, g2, g3, g4, g5, g6, g7, g8, g9 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv(), g9.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE48::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(1, i) => { let _ = i; EE48::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]), g9: Conv::fv(&i[9]) } }, _ => panic!("shape") } }
}
pub fn d_EE48() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE48", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(20)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Named(d_ES49)))) }, FieldD { ..FieldD::new("g4", Ty::Named(d_ES50)) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(1437, 28680)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: true }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(1), l(0))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::NonZero { w: 32, s: false }))) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(3), l(2))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 128, s: false }))) }, FieldD { update: Some(X::Len(6)), hint: Hint::Range(0, 3), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(5)), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)))) }, FieldD { ..FieldD::new("g7", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(9)), hint: Hint::Range(0, 9), ..FieldD::new("g8", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(1)), lim: Lim::Count(b(Bop::Add, X::F(8), l(0))), ..FieldD::new("g9", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct ES51 {
    pub f0: Option<bool>,
    #[deku(until = "|v: &u16| ((*v as i128) == 1)")]
    pub f1: Vec<u16>,
    pub f2: u64,
    #[deku(magic = b"\x99\x08")]
    pub f3: [u8; 3],
}
impl Conv for ES51 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES51 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_ES51() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES51", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Opt(Box::new(Ty::Bool))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 64, s: false }) }, FieldD { magic: Some(b"\x99\x08"), ..FieldD::new("f3", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", id_type = "u8")]
pub enum EE52 {
    #[deku(id = "54")]
    V0 { #[deku(bits = 6)] g0: u16, #[deku(pad_bytes_before = "1", magic = b"\x9b\x77\xe6")] g1: [[i8; 2]; 2], #[deku(bits = 11)] g2: u32 },
    #[deku(id_pat = "60..=119")]
    P { g0: u8, #[deku(bits = 3, pad_bits_before = "3")] g1: [[u8; 2]; 2], #[deku(bits = 24)] g2: std::num::NonZeroU64, #[deku(update = "(g4.len() as i128)")] g3: u32, #[deku(bytes = 8, count = "g3")] g4: Vec<[usize; 2]> },
}
impl Conv for EE52 {
    fn tv(&self) -> Val { match self { EE52::V0 { g0, g1, g2 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv()]), EE52::P { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE52::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(1, i) => { let _ = i; EE52::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_EE52() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE52", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(54)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(6)), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), magic: Some(b"\x9b\x77\xe6"), ..FieldD::new("g1", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: true }), 2)), 2)) }, FieldD { bits: Some(l(11)), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(60, 119)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(3)), pad_bits_before: Some(l(3)), ..FieldD::new("g1", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)), 2)) }, FieldD { bits: Some(l(24)), ..FieldD::new("g2", Ty::NonZero { w: 64, s: false }) }, FieldD { update: Some(X::Len(4)), hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(8)), lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)))) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES54 {
    pub f0: u32,
    #[deku(bytes = 12, pad_bytes_before = "1")]
    pub f1: u128,
    pub f2: isize,
}
impl Conv for ES54 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES54 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_ES54() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES54", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(12)), pad_bytes_before: Some(l(1)), ..FieldD::new("f1", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u8")]
pub enum EE55 {
    #[deku(id = "32")]
    V0 { #[deku(pad_bits_after = "1")] g0: i8, g1: u8, #[deku(count = "g1")] g2: Vec<i8>, #[deku(bits = "1")] g3: u8, #[deku(bits = "28")] g4: Box<u32> },
    #[deku(id = 12)]
    V1 { #[deku(skip, default = "(22) as u8")] g0: u8 },
    #[deku(id = "24")]
    V2 { #[deku(until = "|v: &u8| ((*v as i128) == 0)")] g0: Vec<u8> },
    #[deku(id_pat = "82..=113")]
    P { g0: u8, g1: u8, #[deku(bits = "13", bits_read = "((*g1 as i128) * 13)")] g2: Vec<[u16; 2]>, g3: u8, #[deku(count = "g3", pad_bytes_after = "1")] g4: Box<[[u64; 2]]>, #[deku(bits = "16")] g5: u64, #[deku(skip, default = "(195) as u8")] g6: u8, #[deku(update = "(g8.len() as i128)")] g7: u8, #[deku(bits = "7", count = "g7")] g8: Vec<u8> },
}
impl Conv for EE55 {
    fn tv(&self) -> Val { match self { EE55::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), EE55::V1 { g0 } => Val::Var(1, vec![g0.tv()]), EE55::V2 { g0 } => Val::Var(2, vec![g0.tv()]), EE55::P { g0, g1, g2, g3, g4, g5, g6, g7, g8 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE55::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(1, i) => { let _ = i; EE55::V1 { g0: Conv::fv(&i[0]) } }, Val::Var(2, i) => { let _ = i; EE55::V2 { g0: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; EE55::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]) } }, _ => panic!("shape") } }
}
pub fn d_EE55() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE55", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(32)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bits_after: Some(l(1)), ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(1)), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(28)), ..FieldD::new("g4", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(12)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(22), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V2", id: Some(Val::N(24)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(82, 113)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(13)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(13))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)))) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(l(1)), lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)))) }, FieldD { bits: Some(l(16)), ..FieldD::new("g5", Ty::Int { w: 64, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(195), l(0xff)))), ..FieldD::new("g6", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(X::Len(8)), hint: Hint::Range(0, 3), ..FieldD::new("g7", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(7)), lim: Lim::Count(X::F(7)), ..FieldD::new("g8", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "i8")]
pub enum EE56 {
    #[deku(id = "60")]
    V0 { #[deku(update = "(g1.len() as i128)")] g0: u16, #[deku(count = "g0")] g1: Vec<u32>, #[deku(update = "(g3.len() as i128)")] g2: u32, #[deku(count = "g2")] g3: Vec<u8> },
    #[deku(id = 20)]
    V1 { #[deku(bits = 83)] g0: i128, g1: i8, #[deku(update = "(g3.len() as i128)")] g2: u8, #[deku(count = "g2")] g3: Vec<[i16; 2]>, g4: bool, g5: f32, g6: u8, #[deku(bits = 2, bits_read = "((*g6 as i128) * 2)")] g7: Vec<(i8, u8,)> },
    #[deku(id_pat = "_")]
    P { g0: i8, #[deku(bits = 8)] g1: u16, #[deku(count = "g1", pad_bytes_before = "1")] g2: Vec<[i32; 2]>, #[deku(bytes = 3)] g3: Option<u64> },
}
impl Conv for EE56 {
    fn tv(&self) -> Val { match self { EE56::V0 { g0, g1, g2, g3 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), EE56::V1 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), EE56::P { g0, g1, g2, g3 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE56::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(1, i) => { let _ = i; EE56::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(2, i) => { let _ = i; EE56::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_EE56() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE56", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(60)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 3), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { update: Some(X::Len(3)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "V1", id: Some(Val::N(20)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(83)), ..FieldD::new("g0", Ty::Int { w: 128, s: true }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 8, s: true }) }, FieldD { update: Some(X::Len(3)), hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 16, s: true }), 2)))) }, FieldD { ..FieldD::new("g4", Ty::Bool) }, FieldD { ..FieldD::new("g5", Ty::Float { w: 32 }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g6", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), lim: Lim::Bits(b(Bop::Mul, X::F(6), l(2))), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: true }, Ty::Int { w: 8, s: false }])))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: true }), 2)))) }, FieldD { bytes: Some(l(3)), ..FieldD::new("g3", Ty::Opt(Box::new(Ty::Int { w: 64, s: false }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", id_type = "u32", bytes = 1)]
pub enum EE53 {
    #[deku(id = "2")]
    V0 { #[deku(pad_bytes_after = "1")] g0: [[u8; 2]; 2], #[deku(bytes = 2)] g1: u16, g2: u32, g3: (f64, f64,), #[deku(cond = "(((*g2 as i128) & 3) >= 2)")] g4: Option<isize>, #[deku(bits = 5, update = "(g6.len() as i128)")] g5: u16, #[deku(count = "g5")] g6: Vec<ES54> },
    #[deku(id = 39)]
    V1 { g0: i16, #[deku(skip, default = "(85) as u8")] g1: u8, g2: u16, #[deku(count = "g2")] g3: Box<[EE55]>, #[deku(pad_bits_before = "1")] g4: [EE56; 2], #[deku(bits = 12)] g5: u16, #[deku(bits = 99, pad_bytes_before = "2")] g6: u128 },
}
impl Conv for EE53 {
    fn tv(&self) -> Val { match self { EE53::V0 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), EE53::V1 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE53::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(1, i) => { let _ = i; EE53::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, _ => panic!("shape") } }
}
pub fn d_EE53() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE53", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: Some(1) }, variants: vec![VariantD { name: "V0", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bytes_after: Some(l(1)), ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)), 2)) }, FieldD { bytes: Some(l(2)), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("g3", Ty::Tup(vec![Ty::Float { w: 64 }, Ty::Float { w: 64 }])) }, FieldD { cond: Some(b(Bop::Ge, b(Bop::And, X::F(2), l(3)), l(2))), ..FieldD::new("g4", Ty::Opt(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { bits: Some(l(5)), update: Some(X::Len(6)), hint: Hint::Range(0, 3), ..FieldD::new("g5", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(5)), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Named(d_ES54)))) }] }, VariantD { name: "V1", id: Some(Val::N(39)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(85), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Named(d_EE55)))) }, FieldD { pad_bits_before: Some(l(1)), ..FieldD::new("g4", Ty::Arr(Box::new(Ty::Named(d_EE56)), 2)) }, FieldD { bits: Some(l(12)), ..FieldD::new("g5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(99)), pad_bytes_before: Some(l(2)), ..FieldD::new("g6", Ty::Int { w: 128, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "i16", id_endian = "big")]
pub enum EE58 {
    #[deku(id = "2")]
    V0,
    #[deku(id = 60)]
    V1 { #[deku(bits = "4")] g0: u8, #[deku(bits = 8, bytes_read = "((*g0 as i128) * 1)")] g1: Vec<(u8, u8,)>, #[deku(bits = 24)] g2: usize, g3: Box<f32>, g4: i128, #[deku(skip, default = "(34) as u8")] g5: u8, #[deku(bytes = 15)] g6: [[i128; 2]; 2] },
    #[deku(id = "53")]
    V2 { g0: i128, #[deku(assert = "(((*g1 as i128) >= 3) && ((*g1 as i128) <= 90))")] g1: u8, #[deku(bits = 8)] g2: u8, #[deku(bits = "40", bits_read = "((*g2 as i128) * 40)")] g3: Box<[u64]>, g4: u32, #[deku(bytes_read = "((*g4 as i128) * 8)")] g5: Vec<f64>, g6: u8, #[deku(count = "((*g6 as i128) + 0)")] g7: Vec<[bool; 2]> },
    #[deku(id = 56)]
    V3 { #[deku(bits = 2)] g0: [[bool; 2]; 2], #[deku(skip, default = "(180) as u8")] g1: u8, g2: i64, #[deku(bits = "22", pad_bytes_before = "2")] g3: u32, #[deku(update = "(g5.len() as i128)")] g4: u8, #[deku(bits_read = "((*g4 as i128) * 8)", pad_bits_before = "3")] g5: Vec<bool>, g6: u32, #[deku(count = "g6")] g7: Vec<[i128; 2]> },
    #[deku(id_pat = "_")]
    P { g0: i16, g1: i32, g2: u32, #[deku(bytes = "1", bits_read = "((*g2 as i128) * 8)")] g3: Vec<u32>, g4: u16, #[deku(bits = "1", bits_read = "((*g4 as i128) * 1)")] g5: Vec<bool> },
}
impl Conv for EE58 {
    fn tv(&self) -> Val { match self { EE58::V0 => Val::Var(0, vec![]), EE58::V1 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), EE58::V2 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), EE58::V3 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), EE58::P { g0, g1, g2, g3, g4, g5 } => Val::Var(4, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE58::V0 }, Val::Var(1, i) => { let _ = i; EE58::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(2, i) => { let _ = i; EE58::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(3, i) => { let _ = i; EE58::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(4, i) => { let _ = i; EE58::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, _ => panic!("shape") } }
}
pub fn d_EE58() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE58", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: Some(EndianSpec::Lit(E::Be)), order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "V1", id: Some(Val::N(60)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(1))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(24)), ..FieldD::new("g2", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("g3", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("g4", Ty::Int { w: 128, s: true }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(34), l(0xff)))), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(15)), ..FieldD::new("g6", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 128, s: true }), 2)), 2)) }] }, VariantD { name: "V2", id: Some(Val::N(53)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 128, s: true }) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(1), l(3)), b(Bop::Le, X::F(1), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(40)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(40))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g4", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(4), l(8))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Float { w: 64 }))) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g6", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(6), l(0))), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Bool), 2)))) }] }, VariantD { name: "V3", id: Some(Val::N(56)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(2)), ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Bool), 2)), 2)) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(180), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(22)), pad_bytes_before: Some(l(2)), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { update: Some(X::Len(5)), hint: Hint::Range(0, 3), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(4), l(8))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g6", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(6)), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 128, s: true }), 2)))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 32, s: true }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(1)), lim: Lim::Bits(b(Bop::Mul, X::F(2), l(8))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g4", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(1)), lim: Lim::Bits(b(Bop::Mul, X::F(4), l(1))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Bool))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", id_type = "u16")]
pub enum EE57 {
    #[deku(id = "54")]
    V0 { #[deku(bytes = 2, pad_bytes_before = "2")] g0: isize, g1: i16, #[deku(update = "(g3.len() as i128)")] g2: u16, #[deku(count = "g2")] g3: Vec<EE58>, #[deku(bits = "4")] g4: u8, #[deku(count = "g4")] g5: std::sync::Arc<[(u8, u8,)]> },
    #[deku(id = 15)]
    V1,
}
impl Conv for EE57 {
    fn tv(&self) -> Val { match self { EE57::V0 { g0, g1, g2, g3, g4, g5 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), EE57::V1 => Val::Var(1, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE57::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(1, i) => { let _ = i; EE57::V1 }, _ => panic!("shape") } }
}
pub fn d_EE57() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE57", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(54)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bytes: Some(l(2)), pad_bytes_before: Some(l(2)), ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 16, s: true }) }, FieldD { update: Some(X::Len(3)), hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Named(d_EE58)))) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(4)), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])))) }] }, VariantD { name: "V1", id: Some(Val::N(15)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb", id_type = "u8", bits = 8)]
pub enum EE59 {
    #[deku(id = "22")]
    V0,
    #[deku(id_pat = "50..=96")]
    P { g0: u8, #[deku(skip, default = "(49) as u8")] g1: u8, g2: u8, #[deku(bits = 8)] g3: u32, #[deku(bits = 56, count = "g3")] g4: Box<[i64]>, #[deku(bits = "4", update = "(g6.len() as i128)")] g5: u32, #[deku(bits = "100", count = "g5")] g6: Vec<(u128, u8,)>, #[deku(skip, default = "(138) as u8")] g7: u8 },
}
impl Conv for EE59 {
    fn tv(&self) -> Val { match self { EE59::V0 => Val::Var(0, vec![]), EE59::P { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE59::V0 }, Val::Var(1, i) => { let _ = i; EE59::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, _ => panic!("shape") } }
}
pub fn d_EE59() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE59", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(8), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(22)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(50, 96)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(49), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(56)), lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { bits: Some(l(4)), update: Some(X::Len(6)), hint: Hint::Range(0, 7), ..FieldD::new("g5", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(100)), lim: Lim::Count(X::F(5)), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 128, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(138), l(0xff)))), ..FieldD::new("g7", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\x10\x27\xa8\x12", endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "u8")]
pub enum EE61 {
    #[deku(id = "6")]
    V0 { g0: [u8; 1], #[deku(skip, default = "(46) as u8")] g1: u8, #[deku(bits = "19")] g2: u32 },
    #[deku(id = 33)]
    V1 { g0: i64, #[deku(until = "|v: &u16| ((*v as i128) == 1)", magic = b"\xbe\x11\x51")] g1: Vec<u16>, #[deku(bits = 24)] g2: std::num::NonZeroI64, #[deku(bits = 5, update = "(g4.len() as i128)")] g3: u16, #[deku(count = "g3")] g4: Vec<[u8; 2]> },
    #[deku(id = "0")]
    V2 { #[deku(bits = 8)] g0: u16, #[deku(count = "((*g0 as i128) + 0)")] g1: std::sync::Arc<[(f32, u8,)]>, #[deku(bits = 8, update = "(g3.len() as i128)")] g2: u16, #[deku(bits = 2, count = "g2")] g3: Vec<u8> },
}
impl Conv for EE61 {
    fn tv(&self) -> Val { match self { EE61::V0 { g0, g1, g2 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv()]), EE61::V1 { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), EE61::V2 { g0, g1, g2, g3 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE61::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(1, i) => { let _ = i; EE61::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(2, i) => { let _ = i; EE61::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_EE61() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE61", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 1)) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(46), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(19)), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(33)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 64, s: true }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(1))), magic: Some(b"\xbe\x11\x51"), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(24)), ..FieldD::new("g2", Ty::NonZero { w: 64, s: true }) }, FieldD { bits: Some(l(5)), update: Some(X::Len(4)), hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)))) }] }, VariantD { name: "V2", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(0), l(0))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Float { w: 32 }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(8)), update: Some(X::Len(3)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(2)), lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: Some(b"\x10\x27\xa8\x12"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "msb", id_type = "i8")]
pub enum EE60 {
    #[deku(id = "9")]
    V0 { #[deku(bits = 8, update = "(g1.len() as i128)")] g0: u16, #[deku(bits = 9, count = "((*g0 as i128) + 0)")] g1: std::sync::Arc<[(isize, u8,)]>, #[deku(pad_bits_before = "2", skip, default = "(47) as u8")] g2: u8, #[deku(pad_bytes_after = "2")] g3: (u64, u64,), #[deku(pad_bytes_before = "2")] g4: i128 },
    #[deku(id = 30)]
    V1 { #[deku(skip, default = "(61) as u8")] g0: u8, #[deku(pad_bits_after = "3")] g1: i128, #[deku(bits = 23, pad_bits_before = "2")] g2: u32, #[deku(skip, default = "(174) as u8")] g3: u8, #[deku(pad_bytes_before = "3")] g4: bool, g5: Box<EE61> },
    #[deku(id_pat = "_")]
    P { g0: i8, #[deku(bits = 8)] g1: std::num::NonZeroU32, #[deku(bits = 8, pad_bytes_before = "3")] g2: i64 },
}
impl Conv for EE60 {
    fn tv(&self) -> Val { match self { EE60::V0 { g0, g1, g2, g3, g4 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]), EE60::V1 { g0, g1, g2, g3, g4, g5 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), EE60::P { g0, g1, g2 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE60::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, Val::Var(1, i) => { let _ = i; EE60::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(2, i) => { let _ = i; EE60::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_EE60() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE60", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(9)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(8)), update: Some(X::Len(1)), hint: Hint::Range(0, 9), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(9)), lim: Lim::Count(b(Bop::Add, X::F(0), l(0))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 64, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { pad_bits_before: Some(l(2)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(47), l(0xff)))), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(l(2)), ..FieldD::new("g3", Ty::Tup(vec![Ty::Int { w: 64, s: false }, Ty::Int { w: 64, s: false }])) }, FieldD { pad_bytes_before: Some(l(2)), ..FieldD::new("g4", Ty::Int { w: 128, s: true }) }] }, VariantD { name: "V1", id: Some(Val::N(30)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(61), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("g1", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(23)), pad_bits_before: Some(l(2)), ..FieldD::new("g2", Ty::Int { w: 32, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(174), l(0xff)))), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(3)), ..FieldD::new("g4", Ty::Bool) }, FieldD { ..FieldD::new("g5", Ty::Named(d_EE61)) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(8)), ..FieldD::new("g1", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(8)), pad_bytes_before: Some(l(3)), ..FieldD::new("g2", Ty::Int { w: 64, s: true }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct ES62 {
    #[deku(bits = 5)]
    pub f0: u8,
}
impl Conv for ES62 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES62 { f0: Conv::fv(&i[0]) } }
}
pub fn d_ES62() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES62", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\xdc", endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES64 {
    pub f0: Box<u128>,
}
impl Conv for ES64 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES64 { f0: Conv::fv(&i[0]) } }
}
pub fn d_ES64() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES64", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 128, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: Some(b"\xdc"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u8")]
pub enum EE65 {
    #[deku(id = "9")]
    V0 { #[deku(pad_bits_before = "2", assert = "(((*g0 as i128) >= 3) && ((*g0 as i128) <= 90))")] g0: u16, #[deku(bits = 9)] g1: u128, #[deku(bits = 8)] g2: u16, #[deku(bits = "1", count = "g2")] g3: std::sync::Arc<[bool]>, g4: (i128, i128,), #[deku(bits = 8)] g5: std::num::NonZeroU8, #[deku(bits = 42)] g6: u64 },
    #[deku(id = 13)]
    V1 { #[deku(skip, default = "(133) as u8")] g0: u8, g1: u128, #[deku(bits = 8)] g2: u8, #[deku(count = "((*g2 as i128) + 1)")] g3: Vec<(u16, u8,)>, #[deku(assert = "(((*g4 as i128) >= 3) && ((*g4 as i128) <= 90))")] g4: u32, g5: [[f32; 2]; 2], g6: u16, #[deku(bits = 2, count = "g6")] g7: Vec<(u8, u8,)> },
    #[deku(id = "48")]
    V2 { #[deku(magic = b"\x44")] g0: u128 },
    #[deku(id_pat = "72..=76")]
    P { g0: u8, #[deku(skip, default = "(169) as u8")] g1: u8, #[deku(skip, default = "(14) as u8")] g2: u8, g3: u32, #[deku(count = "g3")] g4: Vec<usize>, #[deku(bits = 3)] g5: u8, #[deku(bits = 14)] g6: i32, #[deku(bits = 8)] g7: u16, #[deku(bytes_read = "((*g7 as i128) * 1)")] g8: Vec<u8> },
}
impl Conv for EE65 {
    fn tv(&self) -> Val { match self { EE65::V0 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), EE65::V1 { g0, g1, g2, g3, g4, g5, g6, g7 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv()]), EE65::V2 { g0 } => Val::Var(2, vec![g0.tv()]), EE65::P { g0, g1, g2, g3, g4, g5, g6, g7, g8 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv(), g7.tv(), g8.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE65::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(1, i) => { let _ = i; EE65::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]) } }, Val::Var(2, i) => { let _ = i; EE65::V2 { g0: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; EE65::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]), g7: Conv::fv(&i[7]), g8: Conv::fv(&i[8]) } }, _ => panic!("shape") } }
}
pub fn d_EE65() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE65", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(9)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bits_before: Some(l(2)), assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(0), l(3)), b(Bop::Le, X::F(0), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(9)), ..FieldD::new("g1", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(1)), lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { ..FieldD::new("g4", Ty::Tup(vec![Ty::Int { w: 128, s: true }, Ty::Int { w: 128, s: true }])) }, FieldD { bits: Some(l(8)), ..FieldD::new("g5", Ty::NonZero { w: 8, s: false }) }, FieldD { bits: Some(l(42)), ..FieldD::new("g6", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(13)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(133), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(2), l(1))), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(4), l(3)), b(Bop::Le, X::F(4), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g4", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("g5", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Float { w: 32 }), 2)), 2)) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("g6", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(2)), lim: Lim::Count(X::F(6)), ..FieldD::new("g7", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])))) }] }, VariantD { name: "V2", id: Some(Val::N(48)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { magic: Some(b"\x44"), ..FieldD::new("g0", Ty::Int { w: 128, s: false }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(72, 76)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(169), l(0xff)))), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(14), l(0xff)))), ..FieldD::new("g2", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { bits: Some(l(3)), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(14)), ..FieldD::new("g6", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g7", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(7), l(1))), ..FieldD::new("g8", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "u16", bits = 8, id_endian = "big")]
pub enum EE63 {
    #[deku(id = "11")]
    V0 { #[deku(bits = 5)] g0: u8, #[deku(bytes = 5, count = "g0")] g1: Vec<i64>, g2: Option<u16> },
    #[deku(id = 44)]
    V1 { #[deku(bits = 38)] g0: u128, #[deku(bits = 5)] g1: u16, #[deku(bits = 3, count = "g1", pad_bytes_before = "1")] g2: Vec<i16>, g3: u16, #[deku(count = "g3")] g4: std::sync::Arc<[ES64]>, #[deku(bits = 3, pad_bits_after = "3")] g5: usize, g6: Box<EE65> },
    #[deku(id = "4")]
    V2 { #[deku(skip, default = "(118) as u8")] g0: u8, g1: Box<i32>, #[deku(bits = "7")] g2: u64 },
    #[deku(id = 0)]
    V3 { g0: u32, #[deku(bits_read = "((*g0 as i128) * 8)")] g1: Box<[u8]>, g2: f64, #[deku(skip, default = "(170) as u8")] g3: u8 },
}
impl Conv for EE63 {
    fn tv(&self) -> Val { match self { EE63::V0 { g0, g1, g2 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv()]), EE63::V1 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), EE63::V2 { g0, g1, g2 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv()]), EE63::V3 { g0, g1, g2, g3 } => Val::Var(3, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE63::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(1, i) => { let _ = i; EE63::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(2, i) => { let _ = i; EE63::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]) } }, Val::Var(3, i) => { let _ = i; EE63::V3 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_EE63() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE63", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: Some(EndianSpec::Lit(E::Be)), order: None, bits: Some(8), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(11)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(5)), lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { ..FieldD::new("g2", Ty::Opt(Box::new(Ty::Int { w: 16, s: false }))) }] }, VariantD { name: "V1", id: Some(Val::N(44)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(38)), ..FieldD::new("g0", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(3)), pad_bytes_before: Some(l(1)), lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("g3", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Named(d_ES64)))) }, FieldD { bits: Some(l(3)), pad_bits_after: Some(l(3)), ..FieldD::new("g5", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("g6", Ty::Named(d_EE65)) }] }, VariantD { name: "V2", id: Some(Val::N(4)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(118), l(0xff)))), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g1", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("g2", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "V3", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("g2", Ty::Float { w: 64 }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(170), l(0xff)))), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct ES67 {
    pub f0: u32,
    pub f1: bool,
    #[deku(bytes = "1")]
    pub f2: i64,
    #[deku(bits = "4", update = "(self.f4.len() as i128)")]
    pub f3: u32,
    #[deku(count = "((*f3 as i128) + 2)")]
    pub f4: std::sync::Arc<[[i8; 2]]>,
}
impl Conv for ES67 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES67 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]) } }
}
pub fn d_ES67() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES67", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Bool) }, FieldD { bytes: Some(l(1)), ..FieldD::new("f2", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(4)), update: Some(X::Len(4)), hint: Hint::Range(0, 7), ..FieldD::new("f3", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(3), l(2))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: true }), 2)))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct ES68 {
    #[deku(bits = "40")]
    pub f0: std::num::NonZeroU64,
    #[deku(bytes = "4")]
    pub f1: i32,
    pub f2: u16,
}
impl Conv for ES68 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES68 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_ES68() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES68", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(40)), ..FieldD::new("f0", Ty::NonZero { w: 64, s: false }) }, FieldD { bytes: Some(l(4)), ..FieldD::new("f1", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb", id_type = "u8")]
pub enum EE66 {
    #[deku(id = "28")]
    V0 { #[deku(bits = "52")] g0: i128, #[deku(bits = 8)] g1: u16, #[deku(count = "g1")] g2: Vec<ES67>, #[deku(pad_bits_after = "2")] g3: u32, #[deku(pad_bytes_after = "3", assert = "(((*g4 as i128) >= 3) && ((*g4 as i128) <= 90))")] g4: i128, #[deku(bits = 8)] g5: u32, #[deku(bits_read = "((*g5 as i128) * 88)")] g6: Vec<ES68> },
    #[deku(id = 35)]
    V1 { #[deku(pad_bits_after = "1", until = "|v: &i8| ((*v as i128) == 0)")] g0: Vec<i8> },
    #[deku(id_pat = "24..=80")]
    P { g0: u8, #[deku(bytes = "16")] g1: (i128, i128,), #[deku(bits = 8)] g2: u16, #[deku(count = "g2")] g3: Vec<f64> },
}
impl Conv for EE66 {
    fn tv(&self) -> Val { match self { EE66::V0 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), EE66::V1 { g0 } => Val::Var(1, vec![g0.tv()]), EE66::P { g0, g1, g2, g3 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE66::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(1, i) => { let _ = i; EE66::V1 { g0: Conv::fv(&i[0]) } }, Val::Var(2, i) => { let _ = i; EE66::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, _ => panic!("shape") } }
}
pub fn d_EE66() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE66", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(28)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(52)), ..FieldD::new("g0", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Named(d_ES67)))) }, FieldD { pad_bits_after: Some(l(2)), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { pad_bytes_after: Some(l(3)), assert: Some(b(Bop::LAnd, b(Bop::Ge, X::F(4), l(3)), b(Bop::Le, X::F(4), l(90)))), hint: Hint::Range(3, 90), ..FieldD::new("g4", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g5", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(5), l(88))), ..FieldD::new("g6", Ty::Vec(Box::new(Ty::Named(d_ES68)))) }] }, VariantD { name: "V1", id: Some(Val::N(35)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bits_after: Some(l(1)), lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("g0", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(24, 80)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(16)), ..FieldD::new("g1", Ty::Tup(vec![Ty::Int { w: 128, s: true }, Ty::Int { w: 128, s: true }])) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Float { w: 64 }))) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct ES71 {
    #[deku(skip, default = "(63) as u8")]
    pub f0: u8,
    pub f1: u8,
}
impl Conv for ES71 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES71 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_ES71() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES71", kind: Kind::Struct { fields: vec![FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(63), l(0xff)))), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct ES70 {
    #[deku(bits = "4")]
    pub f0: u8,
    #[deku(count = "f0")]
    pub f1: Vec<ES71>,
    pub f2: Box<u32>,
}
impl Conv for ES70 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES70 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_ES70() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES70", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Named(d_ES71)))) }, FieldD { ..FieldD::new("f2", Ty::Int { w: 32, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "msb")]
pub struct ES69 {
    #[deku(bits = 8)]
    pub f0: u8,
    #[deku(count = "f0")]
    pub f1: Vec<ES70>,
    #[deku(bits = "16")]
    pub f2: std::num::NonZeroU32,
    #[deku(bits = 5, update = "(self.f4.len() as i128)")]
    pub f3: u32,
    #[deku(count = "((*f3 as i128) + 0)")]
    pub f4: std::sync::Arc<[i16]>,
    #[deku(skip, default = "(78) as u8")]
    pub f5: u8,
    #[deku(bits = 8, update = "(self.f7.len() as i128)")]
    pub f6: u8,
    #[deku(count = "f6", pad_bits_after = "1")]
    pub f7: Vec<(u16, u8,)>,
}
impl Conv for ES69 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES69 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]) } }
}
pub fn d_ES69() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES69", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Named(d_ES70)))) }, FieldD { bits: Some(l(16)), ..FieldD::new("f2", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(5)), update: Some(X::Len(4)), hint: Hint::Range(0, 3), ..FieldD::new("f3", Ty::Int { w: 32, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(3), l(0))), ..FieldD::new("f4", Ty::Vec(Box::new(Ty::Int { w: 16, s: true }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(78), l(0xff)))), ..FieldD::new("f5", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), update: Some(X::Len(7)), hint: Hint::Range(0, 3), ..FieldD::new("f6", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(1)), lim: Lim::Count(X::F(6)), ..FieldD::new("f7", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Int { w: 8, s: false }])))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES73 {
    #[deku(pad_bits_before = "1")]
    pub f0: Option<bool>,
    pub f1: u8,
}
impl Conv for ES73 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES73 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]) } }
}
pub fn d_ES73() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES73", kind: Kind::Struct { fields: vec![FieldD { pad_bits_before: Some(l(1)), ..FieldD::new("f0", Ty::Opt(Box::new(Ty::Bool))) }, FieldD { ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct ES72 {
    #[deku(pad_bytes_after = "2")]
    pub f0: ES73,
}
impl Conv for ES72 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES72 { f0: Conv::fv(&i[0]) } }
}
pub fn d_ES72() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES72", kind: Kind::Struct { fields: vec![FieldD { pad_bytes_after: Some(l(2)), ..FieldD::new("f0", Ty::Named(d_ES73)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct ES75 {
    pub f0: i64,
    pub f1: u16,
    #[deku(count = "f1")]
    pub f2: std::sync::Arc<[[u32; 2]]>,
    pub f3: std::num::NonZeroU8,
    pub f4: u8,
    #[deku(bits = 101, bits_read = "((*f4 as i128) * 101)")]
    pub f5: Box<[u128]>,
}
impl Conv for ES75 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES75 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]) } }
}
pub fn d_ES75() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES75", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }, FieldD { hint: Hint::Range(0, 9), ..FieldD::new("f1", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)))) }, FieldD { ..FieldD::new("f3", Ty::NonZero { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(101)), lim: Lim::Bits(b(Bop::Mul, X::F(4), l(101))), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Int { w: 128, s: false }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "u16", bits = 7)]
pub enum EE74 {
    #[deku(id = "26")]
    V0 { #[deku(bits = 6)] g0: u8, #[deku(bits = 5, update = "(g2.len() as i128)")] g1: u8, #[deku(bits = "7", count = "g1")] g2: Box<[u8]>, #[deku(skip, default = "(52) as u8")] g3: u8, g4: [ES75; 2], #[deku(skip, default = "(91) as u8", magic = b"\x49")] g5: u8, g6: u16 },
}
impl Conv for EE74 {
    fn tv(&self) -> Val { match self { EE74::V0 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE74::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, _ => panic!("shape") } }
}
pub fn d_EE74() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE74", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: None, order: None, bits: Some(7), bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(26)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(6)), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), update: Some(X::Len(2)), hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(7)), lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(52), l(0xff)))), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g4", Ty::Arr(Box::new(Ty::Named(d_ES75)), 2)) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(91), l(0xff)))), magic: Some(b"\x49"), ..FieldD::new("g5", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("g6", Ty::Int { w: 16, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct ES76 {
    #[deku(bits = 5)]
    pub f0: Option<i8>,
}
impl Conv for ES76 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES76 { f0: Conv::fv(&i[0]) } }
}
pub fn d_ES76() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES76", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("f0", Ty::Opt(Box::new(Ty::Int { w: 8, s: true }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct ES79 {
    pub f0: u128,
    #[deku(bytes = "1", pad_bits_before = "3")]
    pub f1: i32,
    #[deku(bits = 8)]
    pub f2: u8,
    #[deku(count = "f2")]
    pub f3: Vec<i8>,
    #[deku(bits = 5)]
    pub f4: u32,
    #[deku(bytes_read = "((*f4 as i128) * 16)", pad_bits_before = "1")]
    pub f5: Box<[[usize; 2]]>,
    #[deku(cond = "(((*f0 as i128) & 3) >= 2)")]
    pub f6: Option<u32>,
    #[deku(bits = 8, update = "(self.f8.len() as i128)")]
    pub f7: u8,
    #[deku(bits_read = "((*f7 as i128) * 136)")]
    pub f8: Vec<(i128, u8,)>,
}
impl Conv for ES79 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv(), self.f8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES79 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]), f8: Conv::fv(&i[8]) } }
}
pub fn d_ES79() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES79", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Int { w: 128, s: false }) }, FieldD { bytes: Some(l(1)), pad_bits_before: Some(l(3)), ..FieldD::new("f1", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("f2", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(2)), ..FieldD::new("f3", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 9), ..FieldD::new("f4", Ty::Int { w: 32, s: false }) }, FieldD { pad_bits_before: Some(l(1)), lim: Lim::Bytes(b(Bop::Mul, X::F(4), l(16))), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 2)))) }, FieldD { cond: Some(b(Bop::Ge, b(Bop::And, X::F(0), l(3)), l(2))), ..FieldD::new("f6", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { bits: Some(l(8)), update: Some(X::Len(8)), hint: Hint::Range(0, 3), ..FieldD::new("f7", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(7), l(136))), ..FieldD::new("f8", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 128, s: true }, Ty::Int { w: 8, s: false }])))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct ES78 {
    pub f0: bool,
    #[deku(skip, default = "(6) as u8")]
    pub f1: u8,
    pub f2: ES79,
}
impl Conv for ES78 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES78 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_ES78() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES78", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Bool) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(6), l(0xff)))), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f2", Ty::Named(d_ES79)) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(magic = b"\xea\x88\x18\xaf", endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct ES80 {
    #[deku(bytes = 8)]
    pub f0: i64,
    #[deku(bits = 8)]
    pub f1: u8,
    #[deku(bits = 8, bits_read = "((*f1 as i128) * 8)")]
    pub f2: Vec<std::num::NonZeroI32>,
}
impl Conv for ES80 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES80 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_ES80() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES80", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(8)), ..FieldD::new("f0", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 6), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), lim: Lim::Bits(b(Bop::Mul, X::F(1), l(8))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::NonZero { w: 32, s: true }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: Some(b"\xea\x88\x18\xaf"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(magic = b"\xb9\x43\xa3\x05", endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "u32")]
pub enum EE81 {
    #[deku(id = "6")]
    V0 { g0: [f64; 1], #[deku(bits = 5)] g1: u8 },
}
impl Conv for EE81 {
    fn tv(&self) -> Val { match self { EE81::V0 { g0, g1 } => Val::Var(0, vec![g0.tv(), g1.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE81::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_EE81() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE81", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Float { w: 64 }), 1)) }, FieldD { bits: Some(l(5)), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: Some(b"\xb9\x43\xa3\x05"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct ES77 {
    #[deku(bits = 8)]
    pub f0: u16,
    #[deku(count = "f0")]
    pub f1: std::sync::Arc<[ES78]>,
    #[deku(pad_bits_after = "3")]
    pub f2: ES80,
    pub f3: u16,
    #[deku(bits = 8)]
    pub f4: u8,
    #[deku(count = "f4")]
    pub f5: std::sync::Arc<[[u32; 2]]>,
    pub f6: EE81,
    #[deku(bits = 21)]
    pub f7: isize,
}
impl Conv for ES77 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv(), self.f4.tv(), self.f5.tv(), self.f6.tv(), self.f7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES77 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]), f4: Conv::fv(&i[4]), f5: Conv::fv(&i[5]), f6: Conv::fv(&i[6]), f7: Conv::fv(&i[7]) } }
}
pub fn d_ES77() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES77", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("f0", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("f1", Ty::Vec(Box::new(Ty::Named(d_ES78)))) }, FieldD { pad_bits_after: Some(l(3)), ..FieldD::new("f2", Ty::Named(d_ES80)) }, FieldD { ..FieldD::new("f3", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 9), ..FieldD::new("f4", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(4)), ..FieldD::new("f5", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 2)))) }, FieldD { ..FieldD::new("f6", Ty::Named(d_EE81)) }, FieldD { bits: Some(l(21)), ..FieldD::new("f7", Ty::Int { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order", id_type = "i16", bytes = 1)]
pub enum EE83 {
    #[deku(id = "11")]
    V0 { g0: [u64; 1], #[deku(bits = 8, update = "(g2.len() as i128)")] g1: u8, #[deku(bits = 48, bytes_read = "((*g1 as i128) * 6)")] g2: Vec<isize>, #[deku(skip, default = "(195) as u8")] g3: u8, #[deku(bits = "4")] g4: u8, #[deku(count = "((*g4 as i128) + 2)")] g5: Vec<(u16, u8,)>, g6: i8 },
    #[deku(id = 14)]
    V1 { #[deku(bits = 5)] g0: u32, #[deku(bytes = "13", bytes_read = "((*g0 as i128) * 13)")] g1: std::sync::Arc<[u128]>, g2: u16, g3: [u64; 1] },
    #[deku(id = "6")]
    V2 { #[deku(bits = 5)] g0: u8, #[deku(bits = "16", count = "g0")] g1: Vec<std::num::NonZeroI16>, #[deku(bits = 8)] g2: u16, #[deku(count = "((*g2 as i128) + 0)", magic = b"\x34\xba\xf8")] g3: std::sync::Arc<[(i16, u8,)]>, #[deku(bits = 35)] g4: u64, #[deku(bits = 3)] g5: i8 },
}
impl Conv for EE83 {
    fn tv(&self) -> Val { match self { EE83::V0 { g0, g1, g2, g3, g4, g5, g6 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv(), g6.tv()]), EE83::V1 { g0, g1, g2, g3 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv()]), EE83::V2 { g0, g1, g2, g3, g4, g5 } => Val::Var(2, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE83::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]), g6: Conv::fv(&i[6]) } }, Val::Var(1, i) => { let _ = i; EE83::V1 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]) } }, Val::Var(2, i) => { let _ = i; EE83::V2 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, _ => panic!("shape") } }
}
pub fn d_EE83() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE83", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: None, bytes: Some(1) }, variants: vec![VariantD { name: "V0", id: Some(Val::N(11)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 1)) }, FieldD { bits: Some(l(8)), update: Some(X::Len(2)), hint: Hint::Range(0, 9), ..FieldD::new("g1", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(48)), lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(6))), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(195), l(0xff)))), ..FieldD::new("g3", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), hint: Hint::Range(0, 7), ..FieldD::new("g4", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(4), l(2))), ..FieldD::new("g5", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { ..FieldD::new("g6", Ty::Int { w: 8, s: true }) }] }, VariantD { name: "V1", id: Some(Val::N(14)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(13)), lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(13))), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::Int { w: 128, s: false }))) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("g3", Ty::Arr(Box::new(Ty::Int { w: 64, s: false }), 1)) }] }, VariantD { name: "V2", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(16)), lim: Lim::Count(X::F(0)), ..FieldD::new("g1", Ty::Vec(Box::new(Ty::NonZero { w: 16, s: true }))) }, FieldD { bits: Some(l(8)), hint: Hint::Range(0, 3), ..FieldD::new("g2", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(2), l(0))), magic: Some(b"\x34\xba\xf8"), ..FieldD::new("g3", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 16, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { bits: Some(l(35)), ..FieldD::new("g4", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(3)), ..FieldD::new("g5", Ty::Int { w: 8, s: true }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct ES82 {
    #[deku(bits = 3)]
    pub f0: u8,
    pub f1: EE83,
    #[deku(bytes = 2, pad_bits_before = "1")]
    pub f2: u16,
}
impl Conv for ES82 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES82 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]) } }
}
pub fn d_ES82() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES82", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("f0", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("f1", Ty::Named(d_EE83)) }, FieldD { bytes: Some(l(2)), pad_bits_before: Some(l(1)), ..FieldD::new("f2", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct ES85 {
    pub f0: bool,
    #[deku(bits = 8, update = "(self.f2.len() as i128)")]
    pub f1: u8,
    #[deku(bytes_read = "((*f1 as i128) * 5)")]
    pub f2: Vec<(i32, u8,)>,
    #[deku(magic = b"\x17")]
    pub f3: (u16, u16,),
}
impl Conv for ES85 {
    fn tv(&self) -> Val { Val::Rec(vec![self.f0.tv(), self.f1.tv(), self.f2.tv(), self.f3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ES85 { f0: Conv::fv(&i[0]), f1: Conv::fv(&i[1]), f2: Conv::fv(&i[2]), f3: Conv::fv(&i[3]) } }
}
pub fn d_ES85() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ES85", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f0", Ty::Bool) }, FieldD { bits: Some(l(8)), update: Some(X::Len(2)), hint: Hint::Range(0, 6), ..FieldD::new("f1", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(1), l(5))), ..FieldD::new("f2", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: true }, Ty::Int { w: 8, s: false }])))) }, FieldD { magic: Some(b"\x17"), ..FieldD::new("f3", Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Int { w: 16, s: false }])) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little", bit_order = "msb", id_type = "u8")]
pub enum EE84 {
    #[deku(id = "2")]
    V0 { g0: u16, #[deku(bits = 5)] g1: u16, #[deku(count = "g1")] g2: Vec<u64>, #[deku(bits = 8, magic = b"\xed\x73")] g3: std::num::NonZeroI16, g4: ES85, g5: f64 },
    #[deku(id_pat = "_")]
    P { g0: u8, #[deku(bits = 8)] g1: std::num::NonZeroI8, g2: i16, #[deku(bits = 5)] g3: u32, #[deku(bits = 6, bits_read = "((*g3 as i128) * 6)")] g4: Vec<isize> },
}
impl Conv for EE84 {
    fn tv(&self) -> Val { match self { EE84::V0 { g0, g1, g2, g3, g4, g5 } => Val::Var(0, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv(), g5.tv()]), EE84::P { g0, g1, g2, g3, g4 } => Val::Var(1, vec![g0.tv(), g1.tv(), g2.tv(), g3.tv(), g4.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EE84::V0 { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]), g5: Conv::fv(&i[5]) } }, Val::Var(1, i) => { let _ = i; EE84::P { g0: Conv::fv(&i[0]), g1: Conv::fv(&i[1]), g2: Conv::fv(&i[2]), g3: Conv::fv(&i[3]), g4: Conv::fv(&i[4]) } }, _ => panic!("shape") } }
}
pub fn d_EE84() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EE84", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 3), ..FieldD::new("g1", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("g2", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }, FieldD { bits: Some(l(8)), magic: Some(b"\xed\x73"), ..FieldD::new("g3", Ty::NonZero { w: 16, s: true }) }, FieldD { ..FieldD::new("g4", Ty::Named(d_ES85)) }, FieldD { ..FieldD::new("g5", Ty::Float { w: 64 }) }] }, VariantD { name: "P", id: None, explicit_id: false, pat: Some(vec![(-85070591730234615865843651857942052864, 85070591730234615865843651857942052864)]), default: false, fields: vec![FieldD { ..FieldD::new("g0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), ..FieldD::new("g1", Ty::NonZero { w: 8, s: true }) }, FieldD { ..FieldD::new("g2", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 6), ..FieldD::new("g3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(6)), lim: Lim::Bits(b(Bop::Mul, X::F(3), l(6))), ..FieldD::new("g4", Ty::Vec(Box::new(Ty::Int { w: 64, s: true }))) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

pub fn entries() -> Vec<Entry> {
    let mut v = vec![];
    v.push(Entry { name: "EE1", tags: &["assert", "bits", "bytes_read", "endian", "enum", "magic", "order", "ty_bool", "ty_int", "ty_list", "ty_tup"], decl: d_EE1, ops: ops::<EE1>(), deku_id: Some(deku_id::<EE1, u8>), size_bits: None });
    v.push(Entry { name: "EE2", tags: &["assert", "bits", "bits_read", "bytes", "bytes_read", "count", "default", "endian", "enum", "id_pat", "magic", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_opt", "ty_ptr", "ty_tup", "until", "update"], decl: d_EE2, ops: ops::<EE2>(), deku_id: Some(deku_id::<EE2, u8>), size_bits: None });
    v.push(Entry { name: "ES9", tags: &["default", "size", "skip", "ty_int"], decl: d_ES9, ops: ops::<ES9>(), deku_id: None, size_bits: Some((<ES9 as DekuSize>::SIZE_BITS, 0)) });
    v.push(Entry { name: "ES10", tags: &["bits", "bits_read", "count", "default", "endian", "order", "skip", "ty_arr", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "update"], decl: d_ES10, ops: ops::<ES10>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "EE12", tags: &["assert", "bits", "bits_read", "bytes", "count", "default", "endian", "enum", "id_pat", "magic", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "ty_tup", "until"], decl: d_EE12, ops: ops::<EE12>(), deku_id: Some(deku_id::<EE12, i8>), size_bits: None });
    v.push(Entry { name: "EE16", tags: &["bits", "bits_read", "bytes", "cond", "count", "default", "endian", "enum", "id_pat", "pad", "skip", "ty_arr", "ty_int", "ty_list", "ty_named", "ty_opt", "ty_ptr", "ty_tup", "until"], decl: d_EE16, ops: ops::<EE16>(), deku_id: Some(deku_id::<EE16, i16>), size_bits: None });
    v.push(Entry { name: "EE18", tags: &["bits", "count", "default", "endian", "enum", "id_pat", "order", "skip", "ty_arr", "ty_int", "ty_list", "ty_nz", "ty_ptr"], decl: d_EE18, ops: ops::<EE18>(), deku_id: Some(deku_id::<EE18, i8>), size_bits: None });
    v.push(Entry { name: "ES19", tags: &["assert", "bits", "bits_read", "bytes", "bytes_read", "cond", "count", "default", "endian", "id_pat", "order", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_opt", "ty_ptr", "ty_tup", "until"], decl: d_ES19, ops: ops::<ES19>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "EE22", tags: &["bits", "bytes_read", "default", "enum", "skip", "ty_int", "ty_list"], decl: d_EE22, ops: ops::<EE22>(), deku_id: Some(deku_id::<EE22, i16>), size_bits: None });
    v.push(Entry { name: "ES23", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "default", "endian", "id_pat", "magic", "pad", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup"], decl: d_ES23, ops: ops::<ES23>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "ES27", tags: &["bits", "count", "default", "endian", "order", "skip", "ty_arr", "ty_int", "ty_list", "ty_named"], decl: d_ES27, ops: ops::<ES27>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "EE29", tags: &["endian", "enum", "order", "size"], decl: d_EE29, ops: ops::<EE29>(), deku_id: Some(deku_id::<EE29, u8>), size_bits: Some((<EE29 as DekuSize>::SIZE_BITS, 8)) });
    v.push(Entry { name: "EE30", tags: &["bits", "bytes_read", "count", "default", "endian", "enum", "id_pat", "magic", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_opt", "ty_ptr", "ty_tup", "update"], decl: d_EE30, ops: ops::<EE30>(), deku_id: Some(deku_id::<EE30, i8>), size_bits: None });
    v.push(Entry { name: "EE32", tags: &["bits", "bits_read", "count", "default", "endian", "enum", "id_pat", "magic", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_opt", "ty_ptr", "until", "update"], decl: d_EE32, ops: ops::<EE32>(), deku_id: Some(deku_id::<EE32, u32>), size_bits: None });
    v.push(Entry { name: "ES35", tags: &["bytes", "size", "ty_int"], decl: d_ES35, ops: ops::<ES35>(), deku_id: None, size_bits: Some((<ES35 as DekuSize>::SIZE_BITS, 48)) });
    v.push(Entry { name: "ES36", tags: &["bits", "bits_read", "bytes", "count", "default", "endian", "magic", "skip", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_opt", "ty_ptr", "ty_tup", "update"], decl: d_ES36, ops: ops::<ES36>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "EE39", tags: &["bits", "bits_read", "bytes", "bytes_read", "count", "default", "endian", "enum", "id_pat", "magic", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "ty_tup", "until", "update"], decl: d_EE39, ops: ops::<EE39>(), deku_id: Some(deku_id::<EE39, u32>), size_bits: None });
    v.push(Entry { name: "ES43", tags: &["bits", "bytes", "count", "default", "endian", "order", "pad", "skip", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_tup", "until"], decl: d_ES43, ops: ops::<ES43>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "EE46", tags: &["bits", "bits_read", "count", "default", "enum", "id_pat", "skip", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_ptr"], decl: d_EE46, ops: ops::<EE46>(), deku_id: Some(deku_id::<EE46, u32>), size_bits: None });
    v.push(Entry { name: "EE48", tags: &["bits", "bits_read", "count", "enum", "id_pat", "pad", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "ty_tup", "update"], decl: d_EE48, ops: ops::<EE48>(), deku_id: Some(deku_id::<EE48, i16>), size_bits: None });
    v.push(Entry { name: "ES51", tags: &["endian", "magic", "ty_arr", "ty_bool", "ty_int", "ty_list", "ty_opt", "until"], decl: d_ES51, ops: ops::<ES51>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "EE52", tags: &["bits", "bytes", "count", "endian", "enum", "id_pat", "magic", "pad", "ty_arr", "ty_int", "ty_list", "ty_nz", "update"], decl: d_EE52, ops: ops::<EE52>(), deku_id: Some(deku_id::<EE52, u8>), size_bits: None });
    v.push(Entry { name: "EE53", tags: &["bits", "bits_read", "bytes", "cond", "count", "default", "endian", "enum", "id_pat", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_opt", "ty_ptr", "ty_tup", "until", "update"], decl: d_EE53, ops: ops::<EE53>(), deku_id: Some(deku_id::<EE53, u32>), size_bits: None });
    v.push(Entry { name: "EE57", tags: &["assert", "bits", "bits_read", "bytes", "bytes_read", "count", "default", "endian", "enum", "id_pat", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_ptr", "ty_tup", "update"], decl: d_EE57, ops: ops::<EE57>(), deku_id: Some(deku_id::<EE57, u16>), size_bits: None });
    v.push(Entry { name: "EE59", tags: &["bits", "count", "default", "endian", "enum", "id_pat", "order", "skip", "ty_int", "ty_list", "ty_ptr", "ty_tup", "update"], decl: d_EE59, ops: ops::<EE59>(), deku_id: Some(deku_id::<EE59, u8>), size_bits: None });
    v.push(Entry { name: "EE60", tags: &["bits", "count", "default", "endian", "enum", "id_pat", "magic", "order", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "ty_tup", "until", "update"], decl: d_EE60, ops: ops::<EE60>(), deku_id: Some(deku_id::<EE60, i8>), size_bits: None });
    v.push(Entry { name: "ES62", tags: &["bits", "endian", "size", "ty_int"], decl: d_ES62, ops: ops::<ES62>(), deku_id: None, size_bits: Some((<ES62 as DekuSize>::SIZE_BITS, 5)) });
    v.push(Entry { name: "EE63", tags: &["assert", "bits", "bits_read", "bytes", "bytes_read", "count", "default", "endian", "enum", "id_pat", "magic", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_opt", "ty_ptr", "ty_tup"], decl: d_EE63, ops: ops::<EE63>(), deku_id: Some(deku_id::<EE63, u16>), size_bits: None });
    v.push(Entry { name: "EE66", tags: &["assert", "bits", "bits_read", "bytes", "count", "endian", "enum", "id_pat", "order", "pad", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "ty_tup", "until"], decl: d_EE66, ops: ops::<EE66>(), deku_id: Some(deku_id::<EE66, u8>), size_bits: None });
    v.push(Entry { name: "ES69", tags: &["bits", "count", "default", "endian", "order", "pad", "skip", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "ty_tup", "update"], decl: d_ES69, ops: ops::<ES69>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "ES72", tags: &["endian", "pad", "ty_bool", "ty_int", "ty_named", "ty_opt"], decl: d_ES72, ops: ops::<ES72>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "EE74", tags: &["bits", "bits_read", "count", "default", "endian", "enum", "magic", "skip", "ty_arr", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "update"], decl: d_EE74, ops: ops::<EE74>(), deku_id: Some(deku_id::<EE74, u16>), size_bits: None });
    v.push(Entry { name: "ES76", tags: &["bits", "endian", "ty_int", "ty_opt"], decl: d_ES76, ops: ops::<ES76>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "ES77", tags: &["bits", "bits_read", "bytes", "bytes_read", "cond", "count", "default", "endian", "magic", "order", "pad", "skip", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_opt", "ty_ptr", "ty_tup"], decl: d_ES77, ops: ops::<ES77>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "ES82", tags: &["bits", "bytes", "bytes_read", "count", "default", "endian", "magic", "order", "pad", "skip", "ty_arr", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_ptr", "ty_tup"], decl: d_ES82, ops: ops::<ES82>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "EE84", tags: &["bits", "bits_read", "bytes_read", "count", "endian", "enum", "id_pat", "magic", "order", "ty_bool", "ty_float", "ty_int", "ty_list", "ty_named", "ty_nz", "ty_tup"], decl: d_EE84, ops: ops::<EE84>(), deku_id: Some(deku_id::<EE84, u8>), size_bits: None });
    v
}
