// @generated by gen_zoo.py
#![allow(clippy::all, unused_parens, unused_variables, dead_code, non_camel_case_types, non_snake_case, unused_imports, unused_mut)]
use deku::prelude::*;
use std::sync::OnceLock;
use vcore::custom;
use vcore::model::*;
use vcore::ops::{deku_id, ops, Entry};
use vcore::val::{Conv, Val};

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct IntsNative {
    pub a_u8: u8,
    pub a_u16: u16,
    pub a_u32: u32,
    pub a_u64: u64,
    pub a_u128: u128,
    pub a_usize: usize,
    pub a_i8: i8,
    pub a_i16: i16,
    pub a_i32: i32,
    pub a_i64: i64,
    pub a_i128: i128,
    pub a_isize: isize,
    pub b: bool,
    pub f: f32,
    pub g: f64,
}
impl Conv for IntsNative {
    fn tv(&self) -> Val { Val::Rec(vec![self.a_u8.tv(), self.a_u16.tv(), self.a_u32.tv(), self.a_u64.tv(), self.a_u128.tv(), self.a_usize.tv(), self.a_i8.tv(), self.a_i16.tv(), self.a_i32.tv(), self.a_i64.tv(), self.a_i128.tv(), self.a_isize.tv(), self.b.tv(), self.f.tv(), self.g.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; IntsNative { a_u8: Conv::fv(&i[0]), a_u16: Conv::fv(&i[1]), a_u32: Conv::fv(&i[2]), a_u64: Conv::fv(&i[3]), a_u128: Conv::fv(&i[4]), a_usize: Conv::fv(&i[5]), a_i8: Conv::fv(&i[6]), a_i16: Conv::fv(&i[7]), a_i32: Conv::fv(&i[8]), a_i64: Conv::fv(&i[9]), a_i128: Conv::fv(&i[10]), a_isize: Conv::fv(&i[11]), b: Conv::fv(&i[12]), f: Conv::fv(&i[13]), g: Conv::fv(&i[14]) } }
}
pub fn d_IntsNative() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "IntsNative", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a_u8", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("a_u16", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("a_u32", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("a_u64", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("a_u128", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("a_usize", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("a_i8", Ty::Int { w: 8, s: true }) }, FieldD { ..FieldD::new("a_i16", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("a_i32", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("a_i64", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("a_i128", Ty::Int { w: 128, s: true }) }, FieldD { ..FieldD::new("a_isize", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("b", Ty::Bool) }, FieldD { ..FieldD::new("f", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("g", Ty::Float { w: 64 }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct IntsFNative {
    pub a_u8: u8,
    pub a_u16: u16,
    pub a_u32: u32,
    pub a_u64: u64,
    pub a_u128: u128,
    pub a_usize: usize,
    pub a_i8: i8,
    pub a_i16: i16,
    pub a_i32: i32,
    pub a_i64: i64,
    pub a_i128: i128,
    pub a_isize: isize,
}
impl Conv for IntsFNative {
    fn tv(&self) -> Val { Val::Rec(vec![self.a_u8.tv(), self.a_u16.tv(), self.a_u32.tv(), self.a_u64.tv(), self.a_u128.tv(), self.a_usize.tv(), self.a_i8.tv(), self.a_i16.tv(), self.a_i32.tv(), self.a_i64.tv(), self.a_i128.tv(), self.a_isize.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; IntsFNative { a_u8: Conv::fv(&i[0]), a_u16: Conv::fv(&i[1]), a_u32: Conv::fv(&i[2]), a_u64: Conv::fv(&i[3]), a_u128: Conv::fv(&i[4]), a_usize: Conv::fv(&i[5]), a_i8: Conv::fv(&i[6]), a_i16: Conv::fv(&i[7]), a_i32: Conv::fv(&i[8]), a_i64: Conv::fv(&i[9]), a_i128: Conv::fv(&i[10]), a_isize: Conv::fv(&i[11]) } }
}
pub fn d_IntsFNative() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "IntsFNative", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a_u8", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("a_u16", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("a_u32", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("a_u64", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("a_u128", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("a_usize", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("a_i8", Ty::Int { w: 8, s: true }) }, FieldD { ..FieldD::new("a_i16", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("a_i32", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("a_i64", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("a_i128", Ty::Int { w: 128, s: true }) }, FieldD { ..FieldD::new("a_isize", Ty::Int { w: 64, s: true }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct IntsLittle {
    pub a_u8: u8,
    pub a_u16: u16,
    pub a_u32: u32,
    pub a_u64: u64,
    pub a_u128: u128,
    pub a_usize: usize,
    pub a_i8: i8,
    pub a_i16: i16,
    pub a_i32: i32,
    pub a_i64: i64,
    pub a_i128: i128,
    pub a_isize: isize,
    pub b: bool,
    pub f: f32,
    pub g: f64,
}
impl Conv for IntsLittle {
    fn tv(&self) -> Val { Val::Rec(vec![self.a_u8.tv(), self.a_u16.tv(), self.a_u32.tv(), self.a_u64.tv(), self.a_u128.tv(), self.a_usize.tv(), self.a_i8.tv(), self.a_i16.tv(), self.a_i32.tv(), self.a_i64.tv(), self.a_i128.tv(), self.a_isize.tv(), self.b.tv(), self.f.tv(), self.g.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; IntsLittle { a_u8: Conv::fv(&i[0]), a_u16: Conv::fv(&i[1]), a_u32: Conv::fv(&i[2]), a_u64: Conv::fv(&i[3]), a_u128: Conv::fv(&i[4]), a_usize: Conv::fv(&i[5]), a_i8: Conv::fv(&i[6]), a_i16: Conv::fv(&i[7]), a_i32: Conv::fv(&i[8]), a_i64: Conv::fv(&i[9]), a_i128: Conv::fv(&i[10]), a_isize: Conv::fv(&i[11]), b: Conv::fv(&i[12]), f: Conv::fv(&i[13]), g: Conv::fv(&i[14]) } }
}
pub fn d_IntsLittle() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "IntsLittle", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a_u8", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("a_u16", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("a_u32", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("a_u64", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("a_u128", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("a_usize", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("a_i8", Ty::Int { w: 8, s: true }) }, FieldD { ..FieldD::new("a_i16", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("a_i32", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("a_i64", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("a_i128", Ty::Int { w: 128, s: true }) }, FieldD { ..FieldD::new("a_isize", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("b", Ty::Bool) }, FieldD { ..FieldD::new("f", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("g", Ty::Float { w: 64 }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct IntsFLittle {
    #[deku(endian = "little")]
    pub a_u8: u8,
    #[deku(endian = "little")]
    pub a_u16: u16,
    #[deku(endian = "little")]
    pub a_u32: u32,
    #[deku(endian = "little")]
    pub a_u64: u64,
    #[deku(endian = "little")]
    pub a_u128: u128,
    #[deku(endian = "little")]
    pub a_usize: usize,
    #[deku(endian = "little")]
    pub a_i8: i8,
    #[deku(endian = "little")]
    pub a_i16: i16,
    #[deku(endian = "little")]
    pub a_i32: i32,
    #[deku(endian = "little")]
    pub a_i64: i64,
    #[deku(endian = "little")]
    pub a_i128: i128,
    #[deku(endian = "little")]
    pub a_isize: isize,
}
impl Conv for IntsFLittle {
    fn tv(&self) -> Val { Val::Rec(vec![self.a_u8.tv(), self.a_u16.tv(), self.a_u32.tv(), self.a_u64.tv(), self.a_u128.tv(), self.a_usize.tv(), self.a_i8.tv(), self.a_i16.tv(), self.a_i32.tv(), self.a_i64.tv(), self.a_i128.tv(), self.a_isize.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; IntsFLittle { a_u8: Conv::fv(&i[0]), a_u16: Conv::fv(&i[1]), a_u32: Conv::fv(&i[2]), a_u64: Conv::fv(&i[3]), a_u128: Conv::fv(&i[4]), a_usize: Conv::fv(&i[5]), a_i8: Conv::fv(&i[6]), a_i16: Conv::fv(&i[7]), a_i32: Conv::fv(&i[8]), a_i64: Conv::fv(&i[9]), a_i128: Conv::fv(&i[10]), a_isize: Conv::fv(&i[11]) } }
}
pub fn d_IntsFLittle() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "IntsFLittle", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("a_u8", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("a_u16", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("a_u32", Ty::Int { w: 32, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("a_u64", Ty::Int { w: 64, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("a_u128", Ty::Int { w: 128, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("a_usize", Ty::Int { w: 64, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("a_i8", Ty::Int { w: 8, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("a_i16", Ty::Int { w: 16, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("a_i32", Ty::Int { w: 32, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("a_i64", Ty::Int { w: 64, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("a_i128", Ty::Int { w: 128, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("a_isize", Ty::Int { w: 64, s: true }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct IntsBig {
    pub a_u8: u8,
    pub a_u16: u16,
    pub a_u32: u32,
    pub a_u64: u64,
    pub a_u128: u128,
    pub a_usize: usize,
    pub a_i8: i8,
    pub a_i16: i16,
    pub a_i32: i32,
    pub a_i64: i64,
    pub a_i128: i128,
    pub a_isize: isize,
    pub b: bool,
    pub f: f32,
    pub g: f64,
}
impl Conv for IntsBig {
    fn tv(&self) -> Val { Val::Rec(vec![self.a_u8.tv(), self.a_u16.tv(), self.a_u32.tv(), self.a_u64.tv(), self.a_u128.tv(), self.a_usize.tv(), self.a_i8.tv(), self.a_i16.tv(), self.a_i32.tv(), self.a_i64.tv(), self.a_i128.tv(), self.a_isize.tv(), self.b.tv(), self.f.tv(), self.g.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; IntsBig { a_u8: Conv::fv(&i[0]), a_u16: Conv::fv(&i[1]), a_u32: Conv::fv(&i[2]), a_u64: Conv::fv(&i[3]), a_u128: Conv::fv(&i[4]), a_usize: Conv::fv(&i[5]), a_i8: Conv::fv(&i[6]), a_i16: Conv::fv(&i[7]), a_i32: Conv::fv(&i[8]), a_i64: Conv::fv(&i[9]), a_i128: Conv::fv(&i[10]), a_isize: Conv::fv(&i[11]), b: Conv::fv(&i[12]), f: Conv::fv(&i[13]), g: Conv::fv(&i[14]) } }
}
pub fn d_IntsBig() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "IntsBig", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a_u8", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("a_u16", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("a_u32", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("a_u64", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("a_u128", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("a_usize", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("a_i8", Ty::Int { w: 8, s: true }) }, FieldD { ..FieldD::new("a_i16", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("a_i32", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("a_i64", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("a_i128", Ty::Int { w: 128, s: true }) }, FieldD { ..FieldD::new("a_isize", Ty::Int { w: 64, s: true }) }, FieldD { ..FieldD::new("b", Ty::Bool) }, FieldD { ..FieldD::new("f", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("g", Ty::Float { w: 64 }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct IntsFBig {
    #[deku(endian = "big")]
    pub a_u8: u8,
    #[deku(endian = "big")]
    pub a_u16: u16,
    #[deku(endian = "big")]
    pub a_u32: u32,
    #[deku(endian = "big")]
    pub a_u64: u64,
    #[deku(endian = "big")]
    pub a_u128: u128,
    #[deku(endian = "big")]
    pub a_usize: usize,
    #[deku(endian = "big")]
    pub a_i8: i8,
    #[deku(endian = "big")]
    pub a_i16: i16,
    #[deku(endian = "big")]
    pub a_i32: i32,
    #[deku(endian = "big")]
    pub a_i64: i64,
    #[deku(endian = "big")]
    pub a_i128: i128,
    #[deku(endian = "big")]
    pub a_isize: isize,
}
impl Conv for IntsFBig {
    fn tv(&self) -> Val { Val::Rec(vec![self.a_u8.tv(), self.a_u16.tv(), self.a_u32.tv(), self.a_u64.tv(), self.a_u128.tv(), self.a_usize.tv(), self.a_i8.tv(), self.a_i16.tv(), self.a_i32.tv(), self.a_i64.tv(), self.a_i128.tv(), self.a_isize.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; IntsFBig { a_u8: Conv::fv(&i[0]), a_u16: Conv::fv(&i[1]), a_u32: Conv::fv(&i[2]), a_u64: Conv::fv(&i[3]), a_u128: Conv::fv(&i[4]), a_usize: Conv::fv(&i[5]), a_i8: Conv::fv(&i[6]), a_i16: Conv::fv(&i[7]), a_i32: Conv::fv(&i[8]), a_i64: Conv::fv(&i[9]), a_i128: Conv::fv(&i[10]), a_isize: Conv::fv(&i[11]) } }
}
pub fn d_IntsFBig() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "IntsFBig", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a_u8", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a_u16", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a_u32", Ty::Int { w: 32, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a_u64", Ty::Int { w: 64, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a_u128", Ty::Int { w: 128, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a_usize", Ty::Int { w: 64, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a_i8", Ty::Int { w: 8, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a_i16", Ty::Int { w: 16, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a_i32", Ty::Int { w: 32, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a_i64", Ty::Int { w: 64, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a_i128", Ty::Int { w: 128, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a_isize", Ty::Int { w: 64, s: true }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct BitsNN {
    #[deku(bits = 3)]
    pub a0: u8,
    #[deku(bits = 11)]
    pub a1: u16,
    #[deku(bits = "1")]
    pub a2: u8,
    #[deku(bits = 17)]
    pub a3: u32,
    #[deku(bits = 33)]
    pub a4: u64,
    #[deku(bits = "16")]
    pub a5: u16,
    #[deku(bits = "67")]
    pub a6: u128,
    #[deku(bits = 20)]
    pub a7: u32,
    #[deku(bits = 8)]
    pub a8: u8,
    #[deku(bits = "40")]
    pub a9: usize,
    #[deku(bits = "9")]
    pub a10: u16,
    #[deku(bits = 7)]
    pub a11: u8,
}
impl Conv for BitsNN {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BitsNN { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_BitsNN() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BitsNN", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct SBitsNN {
    #[deku(bits = 3)]
    pub a0: i8,
    #[deku(bits = 11)]
    pub a1: i16,
    #[deku(bits = "1")]
    pub a2: i8,
    #[deku(bits = 17)]
    pub a3: i32,
    #[deku(bits = 33)]
    pub a4: i64,
    #[deku(bits = "16")]
    pub a5: i16,
    #[deku(bits = "67")]
    pub a6: i128,
    #[deku(bits = 20)]
    pub a7: i32,
    #[deku(bits = 8)]
    pub a8: i8,
    #[deku(bits = "40")]
    pub a9: isize,
    #[deku(bits = "9")]
    pub a10: i16,
    #[deku(bits = 7)]
    pub a11: i8,
}
impl Conv for SBitsNN {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SBitsNN { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_SBitsNN() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SBitsNN", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: true }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct UnalNN {
    #[deku(bits = "5")]
    pub p: u8,
    pub a: u16,
    pub b: i32,
    pub c: u64,
    pub d: u128,
    pub e: bool,
    pub f: f32,
    pub g: [u8; 3],
    pub h: [u16; 2],
    pub i: (u8, i16,),
    #[deku(bits = 3)]
    pub q: u8,
}
impl Conv for UnalNN {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv(), self.g.tv(), self.h.tv(), self.i.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UnalNN { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]), d: Conv::fv(&i[4]), e: Conv::fv(&i[5]), f: Conv::fv(&i[6]), g: Conv::fv(&i[7]), h: Conv::fv(&i[8]), i: Conv::fv(&i[9]), q: Conv::fv(&i[10]) } }
}
pub fn d_UnalNN() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UnalNN", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("d", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("e", Ty::Bool) }, FieldD { ..FieldD::new("f", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("g", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { ..FieldD::new("h", Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)) }, FieldD { ..FieldD::new("i", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: true }])) }, FieldD { bits: Some(l(3)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(bit_order = "msb")]
pub struct BitsNM {
    #[deku(bits = 3)]
    pub a0: u8,
    #[deku(bits = 11)]
    pub a1: u16,
    #[deku(bits = "1")]
    pub a2: u8,
    #[deku(bits = 17)]
    pub a3: u32,
    #[deku(bits = 33)]
    pub a4: u64,
    #[deku(bits = "16")]
    pub a5: u16,
    #[deku(bits = "67")]
    pub a6: u128,
    #[deku(bits = 20)]
    pub a7: u32,
    #[deku(bits = 8)]
    pub a8: u8,
    #[deku(bits = "40")]
    pub a9: usize,
    #[deku(bits = "9")]
    pub a10: u16,
    #[deku(bits = 7)]
    pub a11: u8,
}
impl Conv for BitsNM {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BitsNM { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_BitsNM() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BitsNM", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(bit_order = "msb")]
pub struct SBitsNM {
    #[deku(bits = 3)]
    pub a0: i8,
    #[deku(bits = 11)]
    pub a1: i16,
    #[deku(bits = "1")]
    pub a2: i8,
    #[deku(bits = 17)]
    pub a3: i32,
    #[deku(bits = 33)]
    pub a4: i64,
    #[deku(bits = "16")]
    pub a5: i16,
    #[deku(bits = "67")]
    pub a6: i128,
    #[deku(bits = 20)]
    pub a7: i32,
    #[deku(bits = 8)]
    pub a8: i8,
    #[deku(bits = "40")]
    pub a9: isize,
    #[deku(bits = "9")]
    pub a10: i16,
    #[deku(bits = 7)]
    pub a11: i8,
}
impl Conv for SBitsNM {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SBitsNM { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_SBitsNM() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SBitsNM", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: true }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(bit_order = "msb")]
pub struct UnalNM {
    #[deku(bits = "5")]
    pub p: u8,
    pub a: u16,
    pub b: i32,
    pub c: u64,
    pub d: u128,
    pub e: bool,
    pub f: f32,
    pub g: [u8; 3],
    pub h: [u16; 2],
    pub i: (u8, i16,),
    #[deku(bits = 3)]
    pub q: u8,
}
impl Conv for UnalNM {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv(), self.g.tv(), self.h.tv(), self.i.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UnalNM { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]), d: Conv::fv(&i[4]), e: Conv::fv(&i[5]), f: Conv::fv(&i[6]), g: Conv::fv(&i[7]), h: Conv::fv(&i[8]), i: Conv::fv(&i[9]), q: Conv::fv(&i[10]) } }
}
pub fn d_UnalNM() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UnalNM", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("d", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("e", Ty::Bool) }, FieldD { ..FieldD::new("f", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("g", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { ..FieldD::new("h", Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)) }, FieldD { ..FieldD::new("i", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: true }])) }, FieldD { bits: Some(l(3)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(bit_order = "lsb")]
pub struct BitsNL {
    #[deku(bits = 3)]
    pub a0: u8,
    #[deku(bits = 11)]
    pub a1: u16,
    #[deku(bits = "1")]
    pub a2: u8,
    #[deku(bits = 17)]
    pub a3: u32,
    #[deku(bits = 33)]
    pub a4: u64,
    #[deku(bits = "16")]
    pub a5: u16,
    #[deku(bits = "67")]
    pub a6: u128,
    #[deku(bits = 20)]
    pub a7: u32,
    #[deku(bits = 8)]
    pub a8: u8,
    #[deku(bits = "40")]
    pub a9: usize,
    #[deku(bits = "9")]
    pub a10: u16,
    #[deku(bits = 7)]
    pub a11: u8,
}
impl Conv for BitsNL {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BitsNL { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_BitsNL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BitsNL", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(bit_order = "lsb")]
pub struct SBitsNL {
    #[deku(bits = 3)]
    pub a0: i8,
    #[deku(bits = 11)]
    pub a1: i16,
    #[deku(bits = "1")]
    pub a2: i8,
    #[deku(bits = 17)]
    pub a3: i32,
    #[deku(bits = 33)]
    pub a4: i64,
    #[deku(bits = "16")]
    pub a5: i16,
    #[deku(bits = "67")]
    pub a6: i128,
    #[deku(bits = 20)]
    pub a7: i32,
    #[deku(bits = 8)]
    pub a8: i8,
    #[deku(bits = "40")]
    pub a9: isize,
    #[deku(bits = "9")]
    pub a10: i16,
    #[deku(bits = 7)]
    pub a11: i8,
}
impl Conv for SBitsNL {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SBitsNL { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_SBitsNL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SBitsNL", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: true }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(bit_order = "lsb")]
pub struct UnalNL {
    #[deku(bits = "5")]
    pub p: u8,
    pub a: u16,
    pub b: i32,
    pub c: u64,
    pub d: u128,
    pub e: bool,
    pub f: f32,
    pub g: [u8; 3],
    pub h: [u16; 2],
    pub i: (u8, i16,),
    #[deku(bits = 3)]
    pub q: u8,
}
impl Conv for UnalNL {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv(), self.g.tv(), self.h.tv(), self.i.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UnalNL { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]), d: Conv::fv(&i[4]), e: Conv::fv(&i[5]), f: Conv::fv(&i[6]), g: Conv::fv(&i[7]), h: Conv::fv(&i[8]), i: Conv::fv(&i[9]), q: Conv::fv(&i[10]) } }
}
pub fn d_UnalNL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UnalNL", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("d", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("e", Ty::Bool) }, FieldD { ..FieldD::new("f", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("g", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { ..FieldD::new("h", Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)) }, FieldD { ..FieldD::new("i", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: true }])) }, FieldD { bits: Some(l(3)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct BitsLN {
    #[deku(bits = 3)]
    pub a0: u8,
    #[deku(bits = 11)]
    pub a1: u16,
    #[deku(bits = "1")]
    pub a2: u8,
    #[deku(bits = 17)]
    pub a3: u32,
    #[deku(bits = 33)]
    pub a4: u64,
    #[deku(bits = "16")]
    pub a5: u16,
    #[deku(bits = "67")]
    pub a6: u128,
    #[deku(bits = 20)]
    pub a7: u32,
    #[deku(bits = 8)]
    pub a8: u8,
    #[deku(bits = "40")]
    pub a9: usize,
    #[deku(bits = "9")]
    pub a10: u16,
    #[deku(bits = 7)]
    pub a11: u8,
}
impl Conv for BitsLN {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BitsLN { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_BitsLN() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BitsLN", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct SBitsLN {
    #[deku(bits = 3)]
    pub a0: i8,
    #[deku(bits = 11)]
    pub a1: i16,
    #[deku(bits = "1")]
    pub a2: i8,
    #[deku(bits = 17)]
    pub a3: i32,
    #[deku(bits = 33)]
    pub a4: i64,
    #[deku(bits = "16")]
    pub a5: i16,
    #[deku(bits = "67")]
    pub a6: i128,
    #[deku(bits = 20)]
    pub a7: i32,
    #[deku(bits = 8)]
    pub a8: i8,
    #[deku(bits = "40")]
    pub a9: isize,
    #[deku(bits = "9")]
    pub a10: i16,
    #[deku(bits = 7)]
    pub a11: i8,
}
impl Conv for SBitsLN {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SBitsLN { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_SBitsLN() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SBitsLN", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct UnalLN {
    #[deku(bits = "5")]
    pub p: u8,
    pub a: u16,
    pub b: i32,
    pub c: u64,
    pub d: u128,
    pub e: bool,
    pub f: f32,
    pub g: [u8; 3],
    pub h: [u16; 2],
    pub i: (u8, i16,),
    #[deku(bits = 3)]
    pub q: u8,
}
impl Conv for UnalLN {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv(), self.g.tv(), self.h.tv(), self.i.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UnalLN { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]), d: Conv::fv(&i[4]), e: Conv::fv(&i[5]), f: Conv::fv(&i[6]), g: Conv::fv(&i[7]), h: Conv::fv(&i[8]), i: Conv::fv(&i[9]), q: Conv::fv(&i[10]) } }
}
pub fn d_UnalLN() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UnalLN", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("d", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("e", Ty::Bool) }, FieldD { ..FieldD::new("f", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("g", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { ..FieldD::new("h", Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)) }, FieldD { ..FieldD::new("i", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: true }])) }, FieldD { bits: Some(l(3)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "msb")]
pub struct BitsLM {
    #[deku(bits = 3)]
    pub a0: u8,
    #[deku(bits = 11)]
    pub a1: u16,
    #[deku(bits = "1")]
    pub a2: u8,
    #[deku(bits = 17)]
    pub a3: u32,
    #[deku(bits = 33)]
    pub a4: u64,
    #[deku(bits = "16")]
    pub a5: u16,
    #[deku(bits = "67")]
    pub a6: u128,
    #[deku(bits = 20)]
    pub a7: u32,
    #[deku(bits = 8)]
    pub a8: u8,
    #[deku(bits = "40")]
    pub a9: usize,
    #[deku(bits = "9")]
    pub a10: u16,
    #[deku(bits = 7)]
    pub a11: u8,
}
impl Conv for BitsLM {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BitsLM { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_BitsLM() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BitsLM", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "msb")]
pub struct SBitsLM {
    #[deku(bits = 3)]
    pub a0: i8,
    #[deku(bits = 11)]
    pub a1: i16,
    #[deku(bits = "1")]
    pub a2: i8,
    #[deku(bits = 17)]
    pub a3: i32,
    #[deku(bits = 33)]
    pub a4: i64,
    #[deku(bits = "16")]
    pub a5: i16,
    #[deku(bits = "67")]
    pub a6: i128,
    #[deku(bits = 20)]
    pub a7: i32,
    #[deku(bits = 8)]
    pub a8: i8,
    #[deku(bits = "40")]
    pub a9: isize,
    #[deku(bits = "9")]
    pub a10: i16,
    #[deku(bits = 7)]
    pub a11: i8,
}
impl Conv for SBitsLM {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SBitsLM { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_SBitsLM() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SBitsLM", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "msb")]
pub struct UnalLM {
    #[deku(bits = "5")]
    pub p: u8,
    pub a: u16,
    pub b: i32,
    pub c: u64,
    pub d: u128,
    pub e: bool,
    pub f: f32,
    pub g: [u8; 3],
    pub h: [u16; 2],
    pub i: (u8, i16,),
    #[deku(bits = 3)]
    pub q: u8,
}
impl Conv for UnalLM {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv(), self.g.tv(), self.h.tv(), self.i.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UnalLM { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]), d: Conv::fv(&i[4]), e: Conv::fv(&i[5]), f: Conv::fv(&i[6]), g: Conv::fv(&i[7]), h: Conv::fv(&i[8]), i: Conv::fv(&i[9]), q: Conv::fv(&i[10]) } }
}
pub fn d_UnalLM() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UnalLM", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("d", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("e", Ty::Bool) }, FieldD { ..FieldD::new("f", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("g", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { ..FieldD::new("h", Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)) }, FieldD { ..FieldD::new("i", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: true }])) }, FieldD { bits: Some(l(3)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct BitsLL {
    #[deku(bits = 3)]
    pub a0: u8,
    #[deku(bits = 11)]
    pub a1: u16,
    #[deku(bits = "1")]
    pub a2: u8,
    #[deku(bits = 17)]
    pub a3: u32,
    #[deku(bits = 33)]
    pub a4: u64,
    #[deku(bits = "16")]
    pub a5: u16,
    #[deku(bits = "67")]
    pub a6: u128,
    #[deku(bits = 20)]
    pub a7: u32,
    #[deku(bits = 8)]
    pub a8: u8,
    #[deku(bits = "40")]
    pub a9: usize,
    #[deku(bits = "9")]
    pub a10: u16,
    #[deku(bits = 7)]
    pub a11: u8,
}
impl Conv for BitsLL {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BitsLL { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_BitsLL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BitsLL", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct SBitsLL {
    #[deku(bits = 3)]
    pub a0: i8,
    #[deku(bits = 11)]
    pub a1: i16,
    #[deku(bits = "1")]
    pub a2: i8,
    #[deku(bits = 17)]
    pub a3: i32,
    #[deku(bits = 33)]
    pub a4: i64,
    #[deku(bits = "16")]
    pub a5: i16,
    #[deku(bits = "67")]
    pub a6: i128,
    #[deku(bits = 20)]
    pub a7: i32,
    #[deku(bits = 8)]
    pub a8: i8,
    #[deku(bits = "40")]
    pub a9: isize,
    #[deku(bits = "9")]
    pub a10: i16,
    #[deku(bits = 7)]
    pub a11: i8,
}
impl Conv for SBitsLL {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SBitsLL { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_SBitsLL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SBitsLL", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct UnalLL {
    #[deku(bits = "5")]
    pub p: u8,
    pub a: u16,
    pub b: i32,
    pub c: u64,
    pub d: u128,
    pub e: bool,
    pub f: f32,
    pub g: [u8; 3],
    pub h: [u16; 2],
    pub i: (u8, i16,),
    #[deku(bits = 3)]
    pub q: u8,
}
impl Conv for UnalLL {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv(), self.g.tv(), self.h.tv(), self.i.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UnalLL { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]), d: Conv::fv(&i[4]), e: Conv::fv(&i[5]), f: Conv::fv(&i[6]), g: Conv::fv(&i[7]), h: Conv::fv(&i[8]), i: Conv::fv(&i[9]), q: Conv::fv(&i[10]) } }
}
pub fn d_UnalLL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UnalLL", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("d", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("e", Ty::Bool) }, FieldD { ..FieldD::new("f", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("g", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { ..FieldD::new("h", Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)) }, FieldD { ..FieldD::new("i", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: true }])) }, FieldD { bits: Some(l(3)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct BitsBN {
    #[deku(bits = 3)]
    pub a0: u8,
    #[deku(bits = 11)]
    pub a1: u16,
    #[deku(bits = "1")]
    pub a2: u8,
    #[deku(bits = 17)]
    pub a3: u32,
    #[deku(bits = 33)]
    pub a4: u64,
    #[deku(bits = "16")]
    pub a5: u16,
    #[deku(bits = "67")]
    pub a6: u128,
    #[deku(bits = 20)]
    pub a7: u32,
    #[deku(bits = 8)]
    pub a8: u8,
    #[deku(bits = "40")]
    pub a9: usize,
    #[deku(bits = "9")]
    pub a10: u16,
    #[deku(bits = 7)]
    pub a11: u8,
}
impl Conv for BitsBN {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BitsBN { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_BitsBN() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BitsBN", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct SBitsBN {
    #[deku(bits = 3)]
    pub a0: i8,
    #[deku(bits = 11)]
    pub a1: i16,
    #[deku(bits = "1")]
    pub a2: i8,
    #[deku(bits = 17)]
    pub a3: i32,
    #[deku(bits = 33)]
    pub a4: i64,
    #[deku(bits = "16")]
    pub a5: i16,
    #[deku(bits = "67")]
    pub a6: i128,
    #[deku(bits = 20)]
    pub a7: i32,
    #[deku(bits = 8)]
    pub a8: i8,
    #[deku(bits = "40")]
    pub a9: isize,
    #[deku(bits = "9")]
    pub a10: i16,
    #[deku(bits = 7)]
    pub a11: i8,
}
impl Conv for SBitsBN {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SBitsBN { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_SBitsBN() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SBitsBN", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct UnalBN {
    #[deku(bits = "5")]
    pub p: u8,
    pub a: u16,
    pub b: i32,
    pub c: u64,
    pub d: u128,
    pub e: bool,
    pub f: f32,
    pub g: [u8; 3],
    pub h: [u16; 2],
    pub i: (u8, i16,),
    #[deku(bits = 3)]
    pub q: u8,
}
impl Conv for UnalBN {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv(), self.g.tv(), self.h.tv(), self.i.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UnalBN { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]), d: Conv::fv(&i[4]), e: Conv::fv(&i[5]), f: Conv::fv(&i[6]), g: Conv::fv(&i[7]), h: Conv::fv(&i[8]), i: Conv::fv(&i[9]), q: Conv::fv(&i[10]) } }
}
pub fn d_UnalBN() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UnalBN", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("d", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("e", Ty::Bool) }, FieldD { ..FieldD::new("f", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("g", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { ..FieldD::new("h", Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)) }, FieldD { ..FieldD::new("i", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: true }])) }, FieldD { bits: Some(l(3)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "msb")]
pub struct BitsBM {
    #[deku(bits = 3)]
    pub a0: u8,
    #[deku(bits = 11)]
    pub a1: u16,
    #[deku(bits = "1")]
    pub a2: u8,
    #[deku(bits = 17)]
    pub a3: u32,
    #[deku(bits = 33)]
    pub a4: u64,
    #[deku(bits = "16")]
    pub a5: u16,
    #[deku(bits = "67")]
    pub a6: u128,
    #[deku(bits = 20)]
    pub a7: u32,
    #[deku(bits = 8)]
    pub a8: u8,
    #[deku(bits = "40")]
    pub a9: usize,
    #[deku(bits = "9")]
    pub a10: u16,
    #[deku(bits = 7)]
    pub a11: u8,
}
impl Conv for BitsBM {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BitsBM { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_BitsBM() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BitsBM", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "msb")]
pub struct SBitsBM {
    #[deku(bits = 3)]
    pub a0: i8,
    #[deku(bits = 11)]
    pub a1: i16,
    #[deku(bits = "1")]
    pub a2: i8,
    #[deku(bits = 17)]
    pub a3: i32,
    #[deku(bits = 33)]
    pub a4: i64,
    #[deku(bits = "16")]
    pub a5: i16,
    #[deku(bits = "67")]
    pub a6: i128,
    #[deku(bits = 20)]
    pub a7: i32,
    #[deku(bits = 8)]
    pub a8: i8,
    #[deku(bits = "40")]
    pub a9: isize,
    #[deku(bits = "9")]
    pub a10: i16,
    #[deku(bits = 7)]
    pub a11: i8,
}
impl Conv for SBitsBM {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SBitsBM { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_SBitsBM() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SBitsBM", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "msb")]
pub struct UnalBM {
    #[deku(bits = "5")]
    pub p: u8,
    pub a: u16,
    pub b: i32,
    pub c: u64,
    pub d: u128,
    pub e: bool,
    pub f: f32,
    pub g: [u8; 3],
    pub h: [u16; 2],
    pub i: (u8, i16,),
    #[deku(bits = 3)]
    pub q: u8,
}
impl Conv for UnalBM {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv(), self.g.tv(), self.h.tv(), self.i.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UnalBM { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]), d: Conv::fv(&i[4]), e: Conv::fv(&i[5]), f: Conv::fv(&i[6]), g: Conv::fv(&i[7]), h: Conv::fv(&i[8]), i: Conv::fv(&i[9]), q: Conv::fv(&i[10]) } }
}
pub fn d_UnalBM() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UnalBM", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("d", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("e", Ty::Bool) }, FieldD { ..FieldD::new("f", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("g", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { ..FieldD::new("h", Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)) }, FieldD { ..FieldD::new("i", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: true }])) }, FieldD { bits: Some(l(3)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct BitsBL {
    #[deku(bits = 3)]
    pub a0: u8,
    #[deku(bits = 11)]
    pub a1: u16,
    #[deku(bits = "1")]
    pub a2: u8,
    #[deku(bits = 17)]
    pub a3: u32,
    #[deku(bits = 33)]
    pub a4: u64,
    #[deku(bits = "16")]
    pub a5: u16,
    #[deku(bits = "67")]
    pub a6: u128,
    #[deku(bits = 20)]
    pub a7: u32,
    #[deku(bits = 8)]
    pub a8: u8,
    #[deku(bits = "40")]
    pub a9: usize,
    #[deku(bits = "9")]
    pub a10: u16,
    #[deku(bits = 7)]
    pub a11: u8,
}
impl Conv for BitsBL {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BitsBL { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_BitsBL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BitsBL", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(11)), ..FieldD::new("a1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(17)), ..FieldD::new("a3", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(33)), ..FieldD::new("a4", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(67)), ..FieldD::new("a6", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(20)), ..FieldD::new("a7", Ty::Int { w: 32, s: false }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: false }) }, FieldD { bits: Some(l(9)), ..FieldD::new("a10", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct SBitsBL {
    #[deku(bits = 3)]
    pub a0: i8,
    #[deku(bits = 8)]
    pub a1: i16,
    #[deku(bits = "1")]
    pub a2: i8,
    #[deku(bits = "16")]
    pub a3: i32,
    #[deku(bits = 32)]
    pub a4: i64,
    #[deku(bits = "16")]
    pub a5: i16,
    #[deku(bits = "64")]
    pub a6: i128,
    #[deku(bits = "16")]
    pub a7: i32,
    #[deku(bits = 8)]
    pub a8: i8,
    #[deku(bits = "40")]
    pub a9: isize,
    #[deku(bits = 8)]
    pub a10: i16,
    #[deku(bits = 7)]
    pub a11: i8,
}
impl Conv for SBitsBL {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.a9.tv(), self.a10.tv(), self.a11.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SBitsBL { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]), a9: Conv::fv(&i[9]), a10: Conv::fv(&i[10]), a11: Conv::fv(&i[11]) } }
}
pub fn d_SBitsBL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SBitsBL", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a0", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a1", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(1)), ..FieldD::new("a2", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a3", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(32)), ..FieldD::new("a4", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a5", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(64)), ..FieldD::new("a6", Ty::Int { w: 128, s: true }) }, FieldD { bits: Some(l(16)), ..FieldD::new("a7", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a8", Ty::Int { w: 8, s: true }) }, FieldD { bits: Some(l(40)), ..FieldD::new("a9", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(8)), ..FieldD::new("a10", Ty::Int { w: 16, s: true }) }, FieldD { bits: Some(l(7)), ..FieldD::new("a11", Ty::Int { w: 8, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct UnalBL {
    #[deku(bits = "5")]
    pub p: u8,
    pub a: u16,
    pub b: i32,
    pub c: u64,
    pub d: u128,
    pub e: bool,
    pub f: f32,
    pub g: [u8; 3],
    pub h: [u16; 2],
    pub i: (u8, i16,),
    #[deku(bits = 3)]
    pub q: u8,
}
impl Conv for UnalBL {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv(), self.g.tv(), self.h.tv(), self.i.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UnalBL { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]), d: Conv::fv(&i[4]), e: Conv::fv(&i[5]), f: Conv::fv(&i[6]), g: Conv::fv(&i[7]), h: Conv::fv(&i[8]), i: Conv::fv(&i[9]), q: Conv::fv(&i[10]) } }
}
pub fn d_UnalBL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UnalBL", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 32, s: true }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("d", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("e", Ty::Bool) }, FieldD { ..FieldD::new("f", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("g", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { ..FieldD::new("h", Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)) }, FieldD { ..FieldD::new("i", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: true }])) }, FieldD { bits: Some(l(3)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct BytesN {
    #[deku(bytes = "1")]
    pub a0: u16,
    #[deku(bytes = 3)]
    pub a1: u32,
    #[deku(bytes = 5)]
    pub a2: u64,
    #[deku(bytes = 9)]
    pub a3: u128,
    #[deku(bytes = 8)]
    pub a4: u64,
    #[deku(bytes = 2)]
    pub a5: u32,
    #[deku(bytes = 6)]
    pub a6: usize,
    #[deku(bytes = "1")]
    pub a7: u8,
    #[deku(bytes = "16")]
    pub a8: u128,
}
impl Conv for BytesN {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BytesN { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]) } }
}
pub fn d_BytesN() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BytesN", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(1)), ..FieldD::new("a0", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("a1", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(5)), ..FieldD::new("a2", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(9)), ..FieldD::new("a3", Ty::Int { w: 128, s: false }) }, FieldD { bytes: Some(l(8)), ..FieldD::new("a4", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(2)), ..FieldD::new("a5", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(6)), ..FieldD::new("a6", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(1)), ..FieldD::new("a7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(16)), ..FieldD::new("a8", Ty::Int { w: 128, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct BytesUN {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bytes = "1")]
    pub a0: u16,
    #[deku(bytes = 3)]
    pub a1: u32,
    #[deku(bytes = 5)]
    pub a2: u64,
    #[deku(bytes = 9)]
    pub a3: u128,
    #[deku(bytes = 8)]
    pub a4: u64,
    #[deku(bytes = 2)]
    pub a5: u32,
    #[deku(bytes = 6)]
    pub a6: usize,
    #[deku(bytes = "1")]
    pub a7: u8,
    #[deku(bytes = "16")]
    pub a8: u128,
    #[deku(bits = "5")]
    pub q: u8,
}
impl Conv for BytesUN {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BytesUN { p: Conv::fv(&i[0]), a0: Conv::fv(&i[1]), a1: Conv::fv(&i[2]), a2: Conv::fv(&i[3]), a3: Conv::fv(&i[4]), a4: Conv::fv(&i[5]), a5: Conv::fv(&i[6]), a6: Conv::fv(&i[7]), a7: Conv::fv(&i[8]), a8: Conv::fv(&i[9]), q: Conv::fv(&i[10]) } }
}
pub fn d_BytesUN() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BytesUN", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(1)), ..FieldD::new("a0", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("a1", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(5)), ..FieldD::new("a2", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(9)), ..FieldD::new("a3", Ty::Int { w: 128, s: false }) }, FieldD { bytes: Some(l(8)), ..FieldD::new("a4", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(2)), ..FieldD::new("a5", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(6)), ..FieldD::new("a6", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(1)), ..FieldD::new("a7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(16)), ..FieldD::new("a8", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(5)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct SBytesN {
    #[deku(bytes = "1")]
    pub a0: i16,
    #[deku(bytes = 3)]
    pub a1: i32,
    #[deku(bytes = 5)]
    pub a2: i64,
    #[deku(bytes = 9)]
    pub a3: i128,
    #[deku(bytes = 8)]
    pub a4: i64,
    #[deku(bytes = 2)]
    pub a5: i32,
    #[deku(bytes = 6)]
    pub a6: isize,
    #[deku(bytes = "16")]
    pub a7: i128,
}
impl Conv for SBytesN {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SBytesN { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]) } }
}
pub fn d_SBytesN() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SBytesN", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(1)), ..FieldD::new("a0", Ty::Int { w: 16, s: true }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("a1", Ty::Int { w: 32, s: true }) }, FieldD { bytes: Some(l(5)), ..FieldD::new("a2", Ty::Int { w: 64, s: true }) }, FieldD { bytes: Some(l(9)), ..FieldD::new("a3", Ty::Int { w: 128, s: true }) }, FieldD { bytes: Some(l(8)), ..FieldD::new("a4", Ty::Int { w: 64, s: true }) }, FieldD { bytes: Some(l(2)), ..FieldD::new("a5", Ty::Int { w: 32, s: true }) }, FieldD { bytes: Some(l(6)), ..FieldD::new("a6", Ty::Int { w: 64, s: true }) }, FieldD { bytes: Some(l(16)), ..FieldD::new("a7", Ty::Int { w: 128, s: true }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct BytesL {
    #[deku(bytes = "1")]
    pub a0: u16,
    #[deku(bytes = 3)]
    pub a1: u32,
    #[deku(bytes = 5)]
    pub a2: u64,
    #[deku(bytes = 9)]
    pub a3: u128,
    #[deku(bytes = 8)]
    pub a4: u64,
    #[deku(bytes = 2)]
    pub a5: u32,
    #[deku(bytes = 6)]
    pub a6: usize,
    #[deku(bytes = "1")]
    pub a7: u8,
    #[deku(bytes = "16")]
    pub a8: u128,
}
impl Conv for BytesL {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BytesL { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]) } }
}
pub fn d_BytesL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BytesL", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(1)), ..FieldD::new("a0", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("a1", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(5)), ..FieldD::new("a2", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(9)), ..FieldD::new("a3", Ty::Int { w: 128, s: false }) }, FieldD { bytes: Some(l(8)), ..FieldD::new("a4", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(2)), ..FieldD::new("a5", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(6)), ..FieldD::new("a6", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(1)), ..FieldD::new("a7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(16)), ..FieldD::new("a8", Ty::Int { w: 128, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct BytesUL {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bytes = "1")]
    pub a0: u16,
    #[deku(bytes = 3)]
    pub a1: u32,
    #[deku(bytes = 5)]
    pub a2: u64,
    #[deku(bytes = 9)]
    pub a3: u128,
    #[deku(bytes = 8)]
    pub a4: u64,
    #[deku(bytes = 2)]
    pub a5: u32,
    #[deku(bytes = 6)]
    pub a6: usize,
    #[deku(bytes = "1")]
    pub a7: u8,
    #[deku(bytes = "16")]
    pub a8: u128,
    #[deku(bits = "5")]
    pub q: u8,
}
impl Conv for BytesUL {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BytesUL { p: Conv::fv(&i[0]), a0: Conv::fv(&i[1]), a1: Conv::fv(&i[2]), a2: Conv::fv(&i[3]), a3: Conv::fv(&i[4]), a4: Conv::fv(&i[5]), a5: Conv::fv(&i[6]), a6: Conv::fv(&i[7]), a7: Conv::fv(&i[8]), a8: Conv::fv(&i[9]), q: Conv::fv(&i[10]) } }
}
pub fn d_BytesUL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BytesUL", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(1)), ..FieldD::new("a0", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("a1", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(5)), ..FieldD::new("a2", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(9)), ..FieldD::new("a3", Ty::Int { w: 128, s: false }) }, FieldD { bytes: Some(l(8)), ..FieldD::new("a4", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(2)), ..FieldD::new("a5", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(6)), ..FieldD::new("a6", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(1)), ..FieldD::new("a7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(16)), ..FieldD::new("a8", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(5)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct SBytesL {
    #[deku(bytes = "1")]
    pub a0: i16,
    #[deku(bytes = 3)]
    pub a1: i32,
    #[deku(bytes = 5)]
    pub a2: i64,
    #[deku(bytes = 9)]
    pub a3: i128,
    #[deku(bytes = 8)]
    pub a4: i64,
    #[deku(bytes = 2)]
    pub a5: i32,
    #[deku(bytes = 6)]
    pub a6: isize,
    #[deku(bytes = "16")]
    pub a7: i128,
}
impl Conv for SBytesL {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SBytesL { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]) } }
}
pub fn d_SBytesL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SBytesL", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(1)), ..FieldD::new("a0", Ty::Int { w: 16, s: true }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("a1", Ty::Int { w: 32, s: true }) }, FieldD { bytes: Some(l(5)), ..FieldD::new("a2", Ty::Int { w: 64, s: true }) }, FieldD { bytes: Some(l(9)), ..FieldD::new("a3", Ty::Int { w: 128, s: true }) }, FieldD { bytes: Some(l(8)), ..FieldD::new("a4", Ty::Int { w: 64, s: true }) }, FieldD { bytes: Some(l(2)), ..FieldD::new("a5", Ty::Int { w: 32, s: true }) }, FieldD { bytes: Some(l(6)), ..FieldD::new("a6", Ty::Int { w: 64, s: true }) }, FieldD { bytes: Some(l(16)), ..FieldD::new("a7", Ty::Int { w: 128, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct BytesB {
    #[deku(bytes = "1")]
    pub a0: u16,
    #[deku(bytes = 3)]
    pub a1: u32,
    #[deku(bytes = 5)]
    pub a2: u64,
    #[deku(bytes = 9)]
    pub a3: u128,
    #[deku(bytes = 8)]
    pub a4: u64,
    #[deku(bytes = 2)]
    pub a5: u32,
    #[deku(bytes = 6)]
    pub a6: usize,
    #[deku(bytes = "1")]
    pub a7: u8,
    #[deku(bytes = "16")]
    pub a8: u128,
}
impl Conv for BytesB {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BytesB { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]), a8: Conv::fv(&i[8]) } }
}
pub fn d_BytesB() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BytesB", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(1)), ..FieldD::new("a0", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("a1", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(5)), ..FieldD::new("a2", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(9)), ..FieldD::new("a3", Ty::Int { w: 128, s: false }) }, FieldD { bytes: Some(l(8)), ..FieldD::new("a4", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(2)), ..FieldD::new("a5", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(6)), ..FieldD::new("a6", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(1)), ..FieldD::new("a7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(16)), ..FieldD::new("a8", Ty::Int { w: 128, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct BytesUB {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bytes = "1")]
    pub a0: u16,
    #[deku(bytes = 3)]
    pub a1: u32,
    #[deku(bytes = 5)]
    pub a2: u64,
    #[deku(bytes = 9)]
    pub a3: u128,
    #[deku(bytes = 8)]
    pub a4: u64,
    #[deku(bytes = 2)]
    pub a5: u32,
    #[deku(bytes = 6)]
    pub a6: usize,
    #[deku(bytes = "1")]
    pub a7: u8,
    #[deku(bytes = "16")]
    pub a8: u128,
    #[deku(bits = "5")]
    pub q: u8,
}
impl Conv for BytesUB {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv(), self.a8.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BytesUB { p: Conv::fv(&i[0]), a0: Conv::fv(&i[1]), a1: Conv::fv(&i[2]), a2: Conv::fv(&i[3]), a3: Conv::fv(&i[4]), a4: Conv::fv(&i[5]), a5: Conv::fv(&i[6]), a6: Conv::fv(&i[7]), a7: Conv::fv(&i[8]), a8: Conv::fv(&i[9]), q: Conv::fv(&i[10]) } }
}
pub fn d_BytesUB() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BytesUB", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(1)), ..FieldD::new("a0", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("a1", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(5)), ..FieldD::new("a2", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(9)), ..FieldD::new("a3", Ty::Int { w: 128, s: false }) }, FieldD { bytes: Some(l(8)), ..FieldD::new("a4", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(2)), ..FieldD::new("a5", Ty::Int { w: 32, s: false }) }, FieldD { bytes: Some(l(6)), ..FieldD::new("a6", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(l(1)), ..FieldD::new("a7", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(16)), ..FieldD::new("a8", Ty::Int { w: 128, s: false }) }, FieldD { bits: Some(l(5)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct SBytesB {
    #[deku(bytes = "1")]
    pub a0: i16,
    #[deku(bytes = 3)]
    pub a1: i32,
    #[deku(bytes = 5)]
    pub a2: i64,
    #[deku(bytes = 9)]
    pub a3: i128,
    #[deku(bytes = 8)]
    pub a4: i64,
    #[deku(bytes = 2)]
    pub a5: i32,
    #[deku(bytes = 6)]
    pub a6: isize,
    #[deku(bytes = "16")]
    pub a7: i128,
}
impl Conv for SBytesB {
    fn tv(&self) -> Val { Val::Rec(vec![self.a0.tv(), self.a1.tv(), self.a2.tv(), self.a3.tv(), self.a4.tv(), self.a5.tv(), self.a6.tv(), self.a7.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SBytesB { a0: Conv::fv(&i[0]), a1: Conv::fv(&i[1]), a2: Conv::fv(&i[2]), a3: Conv::fv(&i[3]), a4: Conv::fv(&i[4]), a5: Conv::fv(&i[5]), a6: Conv::fv(&i[6]), a7: Conv::fv(&i[7]) } }
}
pub fn d_SBytesB() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SBytesB", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(1)), ..FieldD::new("a0", Ty::Int { w: 16, s: true }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("a1", Ty::Int { w: 32, s: true }) }, FieldD { bytes: Some(l(5)), ..FieldD::new("a2", Ty::Int { w: 64, s: true }) }, FieldD { bytes: Some(l(9)), ..FieldD::new("a3", Ty::Int { w: 128, s: true }) }, FieldD { bytes: Some(l(8)), ..FieldD::new("a4", Ty::Int { w: 64, s: true }) }, FieldD { bytes: Some(l(2)), ..FieldD::new("a5", Ty::Int { w: 32, s: true }) }, FieldD { bytes: Some(l(6)), ..FieldD::new("a6", Ty::Int { w: 64, s: true }) }, FieldD { bytes: Some(l(16)), ..FieldD::new("a7", Ty::Int { w: 128, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct Override {
    pub a: u16,
    #[deku(endian = "big")]
    pub b: u16,
    #[deku(endian = "little")]
    pub c: u32,
    pub d: u32,
    #[deku(endian = "big", bits = 12)]
    pub e: u16,
    #[deku(bits = 4)]
    pub f: u8,
}
impl Conv for Override {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Override { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]), e: Conv::fv(&i[4]), f: Conv::fv(&i[5]) } }
}
pub fn d_Override() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Override", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("b", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("c", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("d", Ty::Int { w: 32, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(12)), ..FieldD::new("e", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("f", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct OverrideBig {
    pub a: u16,
    #[deku(endian = "little")]
    pub b: u16,
    #[deku(endian = "little", bytes = "5")]
    pub c: i64,
    #[deku(endian = "little")]
    pub d: f64,
    pub e: f64,
}
impl Conv for OverrideBig {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OverrideBig { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]), e: Conv::fv(&i[4]) } }
}
pub fn d_OverrideBig() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OverrideBig", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("b", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(5)), ..FieldD::new("c", Ty::Int { w: 64, s: true }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("d", Ty::Float { w: 64 }) }, FieldD { ..FieldD::new("e", Ty::Float { w: 64 }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct OrderFields {
    #[deku(bit_order = "lsb", bits = 3)]
    pub a: u8,
    #[deku(bit_order = "lsb", bits = "5")]
    pub b: u8,
    #[deku(bits = 3)]
    pub c: u8,
    #[deku(bits = "5")]
    pub d: u8,
    #[deku(bit_order = "lsb")]
    pub e: u16,
    #[deku(endian = "big", bit_order = "lsb")]
    pub f: u16,
    #[deku(endian = "little", bit_order = "msb")]
    pub g: u32,
}
impl Conv for OrderFields {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv(), self.g.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OrderFields { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]), e: Conv::fv(&i[4]), f: Conv::fv(&i[5]), g: Conv::fv(&i[6]) } }
}
pub fn d_OrderFields() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OrderFields", kind: Kind::Struct { fields: vec![FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(3)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(5)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(3)), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), ..FieldD::new("d", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("e", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("f", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("g", Ty::Int { w: 32, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct NonZeroN {
    pub a_u8: std::num::NonZeroU8,
    pub a_u16: std::num::NonZeroU16,
    pub a_u32: std::num::NonZeroU32,
    pub a_u64: std::num::NonZeroU64,
    pub a_u128: std::num::NonZeroU128,
    pub a_usize: std::num::NonZeroUsize,
    pub a_i8: std::num::NonZeroI8,
    pub a_i16: std::num::NonZeroI16,
    pub a_i32: std::num::NonZeroI32,
    pub a_i64: std::num::NonZeroI64,
    pub a_i128: std::num::NonZeroI128,
    pub a_isize: std::num::NonZeroIsize,
}
impl Conv for NonZeroN {
    fn tv(&self) -> Val { Val::Rec(vec![self.a_u8.tv(), self.a_u16.tv(), self.a_u32.tv(), self.a_u64.tv(), self.a_u128.tv(), self.a_usize.tv(), self.a_i8.tv(), self.a_i16.tv(), self.a_i32.tv(), self.a_i64.tv(), self.a_i128.tv(), self.a_isize.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NonZeroN { a_u8: Conv::fv(&i[0]), a_u16: Conv::fv(&i[1]), a_u32: Conv::fv(&i[2]), a_u64: Conv::fv(&i[3]), a_u128: Conv::fv(&i[4]), a_usize: Conv::fv(&i[5]), a_i8: Conv::fv(&i[6]), a_i16: Conv::fv(&i[7]), a_i32: Conv::fv(&i[8]), a_i64: Conv::fv(&i[9]), a_i128: Conv::fv(&i[10]), a_isize: Conv::fv(&i[11]) } }
}
pub fn d_NonZeroN() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NonZeroN", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a_u8", Ty::NonZero { w: 8, s: false }) }, FieldD { ..FieldD::new("a_u16", Ty::NonZero { w: 16, s: false }) }, FieldD { ..FieldD::new("a_u32", Ty::NonZero { w: 32, s: false }) }, FieldD { ..FieldD::new("a_u64", Ty::NonZero { w: 64, s: false }) }, FieldD { ..FieldD::new("a_u128", Ty::NonZero { w: 128, s: false }) }, FieldD { ..FieldD::new("a_usize", Ty::NonZero { w: 64, s: false }) }, FieldD { ..FieldD::new("a_i8", Ty::NonZero { w: 8, s: true }) }, FieldD { ..FieldD::new("a_i16", Ty::NonZero { w: 16, s: true }) }, FieldD { ..FieldD::new("a_i32", Ty::NonZero { w: 32, s: true }) }, FieldD { ..FieldD::new("a_i64", Ty::NonZero { w: 64, s: true }) }, FieldD { ..FieldD::new("a_i128", Ty::NonZero { w: 128, s: true }) }, FieldD { ..FieldD::new("a_isize", Ty::NonZero { w: 64, s: true }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct NonZeroL {
    pub a_u8: std::num::NonZeroU8,
    pub a_u16: std::num::NonZeroU16,
    pub a_u32: std::num::NonZeroU32,
    pub a_u64: std::num::NonZeroU64,
    pub a_u128: std::num::NonZeroU128,
    pub a_usize: std::num::NonZeroUsize,
    pub a_i8: std::num::NonZeroI8,
    pub a_i16: std::num::NonZeroI16,
    pub a_i32: std::num::NonZeroI32,
    pub a_i64: std::num::NonZeroI64,
    pub a_i128: std::num::NonZeroI128,
    pub a_isize: std::num::NonZeroIsize,
}
impl Conv for NonZeroL {
    fn tv(&self) -> Val { Val::Rec(vec![self.a_u8.tv(), self.a_u16.tv(), self.a_u32.tv(), self.a_u64.tv(), self.a_u128.tv(), self.a_usize.tv(), self.a_i8.tv(), self.a_i16.tv(), self.a_i32.tv(), self.a_i64.tv(), self.a_i128.tv(), self.a_isize.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NonZeroL { a_u8: Conv::fv(&i[0]), a_u16: Conv::fv(&i[1]), a_u32: Conv::fv(&i[2]), a_u64: Conv::fv(&i[3]), a_u128: Conv::fv(&i[4]), a_usize: Conv::fv(&i[5]), a_i8: Conv::fv(&i[6]), a_i16: Conv::fv(&i[7]), a_i32: Conv::fv(&i[8]), a_i64: Conv::fv(&i[9]), a_i128: Conv::fv(&i[10]), a_isize: Conv::fv(&i[11]) } }
}
pub fn d_NonZeroL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NonZeroL", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a_u8", Ty::NonZero { w: 8, s: false }) }, FieldD { ..FieldD::new("a_u16", Ty::NonZero { w: 16, s: false }) }, FieldD { ..FieldD::new("a_u32", Ty::NonZero { w: 32, s: false }) }, FieldD { ..FieldD::new("a_u64", Ty::NonZero { w: 64, s: false }) }, FieldD { ..FieldD::new("a_u128", Ty::NonZero { w: 128, s: false }) }, FieldD { ..FieldD::new("a_usize", Ty::NonZero { w: 64, s: false }) }, FieldD { ..FieldD::new("a_i8", Ty::NonZero { w: 8, s: true }) }, FieldD { ..FieldD::new("a_i16", Ty::NonZero { w: 16, s: true }) }, FieldD { ..FieldD::new("a_i32", Ty::NonZero { w: 32, s: true }) }, FieldD { ..FieldD::new("a_i64", Ty::NonZero { w: 64, s: true }) }, FieldD { ..FieldD::new("a_i128", Ty::NonZero { w: 128, s: true }) }, FieldD { ..FieldD::new("a_isize", Ty::NonZero { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct NonZeroB {
    pub a_u8: std::num::NonZeroU8,
    pub a_u16: std::num::NonZeroU16,
    pub a_u32: std::num::NonZeroU32,
    pub a_u64: std::num::NonZeroU64,
    pub a_u128: std::num::NonZeroU128,
    pub a_usize: std::num::NonZeroUsize,
    pub a_i8: std::num::NonZeroI8,
    pub a_i16: std::num::NonZeroI16,
    pub a_i32: std::num::NonZeroI32,
    pub a_i64: std::num::NonZeroI64,
    pub a_i128: std::num::NonZeroI128,
    pub a_isize: std::num::NonZeroIsize,
}
impl Conv for NonZeroB {
    fn tv(&self) -> Val { Val::Rec(vec![self.a_u8.tv(), self.a_u16.tv(), self.a_u32.tv(), self.a_u64.tv(), self.a_u128.tv(), self.a_usize.tv(), self.a_i8.tv(), self.a_i16.tv(), self.a_i32.tv(), self.a_i64.tv(), self.a_i128.tv(), self.a_isize.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NonZeroB { a_u8: Conv::fv(&i[0]), a_u16: Conv::fv(&i[1]), a_u32: Conv::fv(&i[2]), a_u64: Conv::fv(&i[3]), a_u128: Conv::fv(&i[4]), a_usize: Conv::fv(&i[5]), a_i8: Conv::fv(&i[6]), a_i16: Conv::fv(&i[7]), a_i32: Conv::fv(&i[8]), a_i64: Conv::fv(&i[9]), a_i128: Conv::fv(&i[10]), a_isize: Conv::fv(&i[11]) } }
}
pub fn d_NonZeroB() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NonZeroB", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a_u8", Ty::NonZero { w: 8, s: false }) }, FieldD { ..FieldD::new("a_u16", Ty::NonZero { w: 16, s: false }) }, FieldD { ..FieldD::new("a_u32", Ty::NonZero { w: 32, s: false }) }, FieldD { ..FieldD::new("a_u64", Ty::NonZero { w: 64, s: false }) }, FieldD { ..FieldD::new("a_u128", Ty::NonZero { w: 128, s: false }) }, FieldD { ..FieldD::new("a_usize", Ty::NonZero { w: 64, s: false }) }, FieldD { ..FieldD::new("a_i8", Ty::NonZero { w: 8, s: true }) }, FieldD { ..FieldD::new("a_i16", Ty::NonZero { w: 16, s: true }) }, FieldD { ..FieldD::new("a_i32", Ty::NonZero { w: 32, s: true }) }, FieldD { ..FieldD::new("a_i64", Ty::NonZero { w: 64, s: true }) }, FieldD { ..FieldD::new("a_i128", Ty::NonZero { w: 128, s: true }) }, FieldD { ..FieldD::new("a_isize", Ty::NonZero { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct NonZeroBits {
    #[deku(bits = 3)]
    pub a: std::num::NonZeroU8,
    #[deku(bits = 9)]
    pub b: std::num::NonZeroU16,
    #[deku(bits = 12)]
    pub c: std::num::NonZeroI16,
    #[deku(bytes = 3)]
    pub d: std::num::NonZeroU32,
    #[deku(bits = 40)]
    pub e: std::num::NonZeroI64,
}
impl Conv for NonZeroBits {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NonZeroBits { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]), e: Conv::fv(&i[4]) } }
}
pub fn d_NonZeroBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NonZeroBits", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a", Ty::NonZero { w: 8, s: false }) }, FieldD { bits: Some(l(9)), ..FieldD::new("b", Ty::NonZero { w: 16, s: false }) }, FieldD { bits: Some(l(12)), ..FieldD::new("c", Ty::NonZero { w: 16, s: true }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("d", Ty::NonZero { w: 32, s: false }) }, FieldD { bits: Some(l(40)), ..FieldD::new("e", Ty::NonZero { w: 64, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct NonZeroLsb {
    #[deku(bits = 3)]
    pub a: std::num::NonZeroU8,
    #[deku(bits = 9)]
    pub b: std::num::NonZeroU16,
    #[deku(bits = "20")]
    pub c: std::num::NonZeroU32,
}
impl Conv for NonZeroLsb {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NonZeroLsb { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_NonZeroLsb() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NonZeroLsb", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a", Ty::NonZero { w: 8, s: false }) }, FieldD { bits: Some(l(9)), ..FieldD::new("b", Ty::NonZero { w: 16, s: false }) }, FieldD { bits: Some(l(20)), ..FieldD::new("c", Ty::NonZero { w: 32, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct Strings {
    pub a: std::ffi::CString,
    pub b: std::ffi::CString,
    pub n: u8,
}
impl Conv for Strings {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.n.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Strings { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), n: Conv::fv(&i[2]) } }
}
pub fn d_Strings() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Strings", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::CStr) }, FieldD { ..FieldD::new("b", Ty::CStr) }, FieldD { ..FieldD::new("n", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct StringFixed {
    pub n: u8,
    #[deku(bytes = "((*n as i128)) as usize")]
    pub s: std::ffi::CString,
    pub t: u16,
}
impl Conv for StringFixed {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.s.tv(), self.t.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; StringFixed { n: Conv::fv(&i[0]), s: Conv::fv(&i[1]), t: Conv::fv(&i[2]) } }
}
pub fn d_StringFixed() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "StringFixed", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(1, 9), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(X::F(0)), ..FieldD::new("s", Ty::CStr) }, FieldD { ..FieldD::new("t", Ty::Int { w: 16, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct StringFixed4 {
    #[deku(bytes = 4)]
    pub s: std::ffi::CString,
    pub t: u8,
}
impl Conv for StringFixed4 {
    fn tv(&self) -> Val { Val::Rec(vec![self.s.tv(), self.t.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; StringFixed4 { s: Conv::fv(&i[0]), t: Conv::fv(&i[1]) } }
}
pub fn d_StringFixed4() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "StringFixed4", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(4)), ..FieldD::new("s", Ty::CStr) }, FieldD { ..FieldD::new("t", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct Ips {
    pub a: std::net::Ipv4Addr,
    pub b: std::net::Ipv6Addr,
    #[deku(endian = "big")]
    pub c: std::net::Ipv4Addr,
    #[deku(endian = "little")]
    pub d: std::net::Ipv6Addr,
    #[deku(endian = "little")]
    pub e: std::net::Ipv4Addr,
}
impl Conv for Ips {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Ips { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]), e: Conv::fv(&i[4]) } }
}
pub fn d_Ips() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Ips", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 128, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("c", Ty::Int { w: 32, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("d", Ty::Int { w: 128, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("e", Ty::Int { w: 32, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct Bools {
    pub a: bool,
    #[deku(bits = 1)]
    pub b: bool,
    #[deku(bits = 3)]
    pub c: bool,
    #[deku(bits = 4)]
    pub d: u8,
    pub e: bool,
}
impl Conv for Bools {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Bools { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]), e: Conv::fv(&i[4]) } }
}
pub fn d_Bools() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Bools", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Bool) }, FieldD { bits: Some(l(1)), ..FieldD::new("b", Ty::Bool) }, FieldD { bits: Some(l(3)), ..FieldD::new("c", Ty::Bool) }, FieldD { bits: Some(l(4)), ..FieldD::new("d", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("e", Ty::Bool) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(bit_order = "lsb")]
pub struct BoolsLsb {
    #[deku(bits = 1)]
    pub b: bool,
    #[deku(bits = 3)]
    pub c: bool,
    #[deku(bits = 4)]
    pub d: u8,
    pub e: bool,
}
impl Conv for BoolsLsb {
    fn tv(&self) -> Val { Val::Rec(vec![self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BoolsLsb { b: Conv::fv(&i[0]), c: Conv::fv(&i[1]), d: Conv::fv(&i[2]), e: Conv::fv(&i[3]) } }
}
pub fn d_BoolsLsb() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BoolsLsb", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(1)), ..FieldD::new("b", Ty::Bool) }, FieldD { bits: Some(l(3)), ..FieldD::new("c", Ty::Bool) }, FieldD { bits: Some(l(4)), ..FieldD::new("d", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("e", Ty::Bool) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct Units {
    pub a: (),
    pub b: u8,
    pub c: (),
}
impl Conv for Units {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Units { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_Units() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Units", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Unit) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("c", Ty::Unit) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct Floats {
    pub a: f32,
    pub b: f64,
    #[deku(endian = "big")]
    pub c: f32,
    #[deku(endian = "little")]
    pub d: f64,
}
impl Conv for Floats {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Floats { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]) } }
}
pub fn d_Floats() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Floats", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Float { w: 32 }) }, FieldD { ..FieldD::new("b", Ty::Float { w: 64 }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("c", Ty::Float { w: 32 }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("d", Ty::Float { w: 64 }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct FloatUnal {
    #[deku(bits = "2")]
    pub p: u8,
    pub a: f32,
    #[deku(endian = "big")]
    pub b: f64,
    #[deku(bits = 6)]
    pub q: u8,
}
impl Conv for FloatUnal {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv(), self.b.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; FloatUnal { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), q: Conv::fv(&i[3]) } }
}
pub fn d_FloatUnal() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "FloatUnal", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(2)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("a", Ty::Float { w: 32 }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("b", Ty::Float { w: 64 }) }, FieldD { bits: Some(l(6)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct Arrays {
    pub a: [u8; 4],
    #[deku(endian = "big")]
    pub b: [u16; 3],
    pub c: [[u8; 2]; 3],
    pub d: [i32; 1],
    pub e: [u8; 0],
    pub f: [bool; 5],
}
impl Conv for Arrays {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Arrays { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]), e: Conv::fv(&i[4]), f: Conv::fv(&i[5]) } }
}
pub fn d_Arrays() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Arrays", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 4)) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("b", Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 3)) }, FieldD { ..FieldD::new("c", Ty::Arr(Box::new(Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)), 3)) }, FieldD { ..FieldD::new("d", Ty::Arr(Box::new(Ty::Int { w: 32, s: true }), 1)) }, FieldD { ..FieldD::new("e", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 0)) }, FieldD { ..FieldD::new("f", Ty::Arr(Box::new(Ty::Bool), 5)) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct ArrayBits {
    #[deku(bits = 3)]
    pub a: [u8; 3],
    #[deku(bits = "11")]
    pub b: [u16; 5],
}
impl Conv for ArrayBits {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ArrayBits { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_ArrayBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ArrayBits", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { bits: Some(l(11)), ..FieldD::new("b", Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 5)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct ArrayBitsLsb {
    #[deku(bits = 3)]
    pub a: [u8; 3],
    #[deku(bits = "11")]
    pub b: [u16; 5],
}
impl Conv for ArrayBitsLsb {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ArrayBitsLsb { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_ArrayBitsLsb() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ArrayBitsLsb", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { bits: Some(l(11)), ..FieldD::new("b", Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 5)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct ArrayBytes {
    #[deku(bytes = 3)]
    pub a: [u32; 3],
    #[deku(bytes = "5")]
    pub b: [i64; 2],
}
impl Conv for ArrayBytes {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ArrayBytes { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_ArrayBytes() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ArrayBytes", kind: Kind::Struct { fields: vec![FieldD { bytes: Some(l(3)), ..FieldD::new("a", Ty::Arr(Box::new(Ty::Int { w: 32, s: false }), 3)) }, FieldD { bytes: Some(l(5)), ..FieldD::new("b", Ty::Arr(Box::new(Ty::Int { w: 64, s: true }), 2)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct Tuples {
    pub a: (u8, u16,),
    pub b: (u8, (i32, bool,), [u8; 2],),
    pub c: (u8,),
    pub d: (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16,),
}
impl Conv for Tuples {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Tuples { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]) } }
}
pub fn d_Tuples() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Tuples", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: false }])) }, FieldD { ..FieldD::new("b", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Tup(vec![Ty::Int { w: 32, s: true }, Ty::Bool]), Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2)])) }, FieldD { ..FieldD::new("c", Ty::Tup(vec![Ty::Int { w: 8, s: false }])) }, FieldD { ..FieldD::new("d", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: false }])) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct TupleMid {
    pub a: (u8, u16, u8, u32,),
    pub b: (u8, u8, u8, u8, u16,),
    pub c: (u8, u8, u16, u8, u8, u8,),
    pub d: (u8, u16, u8, u8, u8, u8, u8,),
    pub e: (u8, u8, u8, u8, u8, u8, u8, u16,),
    pub f: (u16, u8, u8, u8, u8, u8, u8, u8, u8,),
    pub g: (u8, u8, u8, u8, u8, u8, u8, u8, u16, u8,),
}
impl Conv for TupleMid {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv(), self.g.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; TupleMid { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]), e: Conv::fv(&i[4]), f: Conv::fv(&i[5]), g: Conv::fv(&i[6]) } }
}
pub fn d_TupleMid() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "TupleMid", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 32, s: false }])) }, FieldD { ..FieldD::new("b", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: false }])) }, FieldD { ..FieldD::new("c", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])) }, FieldD { ..FieldD::new("d", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])) }, FieldD { ..FieldD::new("e", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: false }])) }, FieldD { ..FieldD::new("f", Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])) }, FieldD { ..FieldD::new("g", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: false }, Ty::Int { w: 8, s: false }])) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct TupleBits {
    #[deku(bits = "5")]
    pub a: (u8, u8, u8,),
    #[deku(bits = 1)]
    pub b: u8,
}
impl Conv for TupleBits {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; TupleBits { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_TupleBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "TupleBits", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("a", Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])) }, FieldD { bits: Some(l(1)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct TupS (
    pub u8,
    #[deku(endian = "big")]
    pub u16,
    #[deku(bits = 4)]
    pub u8,
    #[deku(bits = 4)]
    pub u8,
);
impl Conv for TupS {
    fn tv(&self) -> Val { Val::Rec(vec![self.0.tv(), self.1.tv(), self.2.tv(), self.3.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; TupS( Conv::fv(&i[0]), Conv::fv(&i[1]), Conv::fv(&i[2]), Conv::fv(&i[3]) ) }
}
pub fn d_TupS() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "TupS", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("field_1", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("field_2", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("field_3", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct New (
    pub u32,
);
impl Conv for New {
    fn tv(&self) -> Val { Val::Rec(vec![self.0.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; New( Conv::fv(&i[0]) ) }
}
pub fn d_New() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "New", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 32, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct Unit0 ;
impl Conv for Unit0 {
    fn tv(&self) -> Val { Val::Rec(vec![]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Unit0 {  } }
}
pub fn d_Unit0() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Unit0", kind: Kind::Struct { fields: vec![], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct Options {
    pub a: Option<u8>,
    #[deku(endian = "big")]
    pub b: Option<u16>,
    #[deku(bits = 4)]
    pub c: Option<u8>,
    #[deku(bits = 4)]
    pub d: u8,
}
impl Conv for Options {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Options { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]) } }
}
pub fn d_Options() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Options", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Opt(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("b", Ty::Opt(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(4)), ..FieldD::new("c", Ty::Opt(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(4)), ..FieldD::new("d", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct Pointers {
    #[deku(endian = "big")]
    pub a: Box<u16>,
    pub b: std::sync::Arc<u32>,
    pub c: std::borrow::Cow<'static, u16>,
    pub d: Box<[u8; 3]>,
    #[deku(bits = 4)]
    pub e: Box<u8>,
    #[deku(bits = 4)]
    pub f: std::sync::Arc<u8>,
}
impl Conv for Pointers {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Pointers { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]), e: Conv::fv(&i[4]), f: Conv::fv(&i[5]) } }
}
pub fn d_Pointers() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Pointers", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("d", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { bits: Some(l(4)), ..FieldD::new("e", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("f", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct Leaf {
    pub a: u8,
    #[deku(endian = "big")]
    pub b: u16,
}
impl Conv for Leaf {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Leaf { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_Leaf() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Leaf", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("b", Ty::Int { w: 16, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct LeafBits {
    #[deku(bits = 3)]
    pub a: u8,
    #[deku(bits = 9)]
    pub b: u16,
}
impl Conv for LeafBits {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; LeafBits { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_LeafBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "LeafBits", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(9)), ..FieldD::new("b", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct LeafE {
    pub a: u16,
    #[deku(bytes = 3)]
    pub b: u32,
    pub c: u8,
}
impl Conv for LeafE {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; LeafE { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_LeafE() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "LeafE", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("b", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", bit_order = "order", ctx = "endian: deku::ctx::Endian, order: deku::ctx::Order")]
pub struct LeafEO {
    pub a: u16,
    #[deku(bits = 4)]
    pub b: u8,
    #[deku(bits = 12)]
    pub c: u16,
}
impl Conv for LeafEO {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; LeafEO { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_LeafEO() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "LeafEO", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(12)), ..FieldD::new("c", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: Some(OrderSpec::Ctx(1)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(bit_order = "order", ctx = "order: deku::ctx::Order")]
pub struct LeafO {
    pub a: u8,
    #[deku(bits = 4)]
    pub b: u8,
    #[deku(bits = 4)]
    pub c: u8,
}
impl Conv for LeafO {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; LeafO { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_LeafO() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "LeafO", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Ctx(0)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(ctx = "extra: u8")]
pub struct LeafX {
    pub n: u8,
    #[deku(count = "((*n as i128) + ((extra as i128) % 5))")]
    pub v: Vec<u8>,
}
impl Conv for LeafX {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; LeafX { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]) } }
}
pub fn d_LeafX() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "LeafX", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 9), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::F(0), b(Bop::Rem, X::C(0), l(5)))), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian, n: usize")]
pub struct LeafEX {
    pub a: u16,
    #[deku(count = "((n as i128) % 7)")]
    pub v: Vec<u16>,
}
impl Conv for LeafEX {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; LeafEX { a: Conv::fv(&i[0]), v: Conv::fv(&i[1]) } }
}
pub fn d_LeafEX() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "LeafEX", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Rem, X::C(1), l(7))), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", ctx = "w: usize")]
pub struct LeafBS {
    #[deku(bits = "((w as i128)) as usize")]
    pub a: u8,
    pub b: u16,
}
impl Conv for LeafBS {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; LeafBS { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_LeafBS() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "LeafBS", kind: Kind::Struct { fields: vec![FieldD { bits: Some(X::C(0)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct Nest {
    pub l: Leaf,
    #[deku(bits = 4)]
    pub p: u8,
    pub m: LeafBits,
    pub ar: [Leaf; 2],
    pub t: (Leaf, u8,),
    pub o: Option<Leaf>,
    pub b: Box<LeafBits>,
}
impl Conv for Nest {
    fn tv(&self) -> Val { Val::Rec(vec![self.l.tv(), self.p.tv(), self.m.tv(), self.ar.tv(), self.t.tv(), self.o.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Nest { l: Conv::fv(&i[0]), p: Conv::fv(&i[1]), m: Conv::fv(&i[2]), ar: Conv::fv(&i[3]), t: Conv::fv(&i[4]), o: Conv::fv(&i[5]), b: Conv::fv(&i[6]) } }
}
pub fn d_Nest() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Nest", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("l", Ty::Named(d_Leaf)) }, FieldD { bits: Some(l(4)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("m", Ty::Named(d_LeafBits)) }, FieldD { ..FieldD::new("ar", Ty::Arr(Box::new(Ty::Named(d_Leaf)), 2)) }, FieldD { ..FieldD::new("t", Ty::Tup(vec![Ty::Named(d_Leaf), Ty::Int { w: 8, s: false }])) }, FieldD { ..FieldD::new("o", Ty::Opt(Box::new(Ty::Named(d_Leaf)))) }, FieldD { ..FieldD::new("b", Ty::Named(d_LeafBits)) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little")]
pub struct NestEL {
    pub l: LeafE,
    pub x: u16,
    pub m: [LeafE; 2],
    #[deku(endian = "big")]
    pub f: LeafE,
    pub t: (u16, LeafE,),
}
impl Conv for NestEL {
    fn tv(&self) -> Val { Val::Rec(vec![self.l.tv(), self.x.tv(), self.m.tv(), self.f.tv(), self.t.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NestEL { l: Conv::fv(&i[0]), x: Conv::fv(&i[1]), m: Conv::fv(&i[2]), f: Conv::fv(&i[3]), t: Conv::fv(&i[4]) } }
}
pub fn d_NestEL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NestEL", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("l", Ty::Named(d_LeafE)) }, FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("m", Ty::Arr(Box::new(Ty::Named(d_LeafE)), 2)) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("f", Ty::Named(d_LeafE)) }, FieldD { ..FieldD::new("t", Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Named(d_LeafE)])) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "msb")]
pub struct NestEOLM {
    pub l: LeafEO,
    pub x: u16,
    pub m: [LeafEO; 2],
    #[deku(bit_order = "msb")]
    pub t: LeafEO,
}
impl Conv for NestEOLM {
    fn tv(&self) -> Val { Val::Rec(vec![self.l.tv(), self.x.tv(), self.m.tv(), self.t.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NestEOLM { l: Conv::fv(&i[0]), x: Conv::fv(&i[1]), m: Conv::fv(&i[2]), t: Conv::fv(&i[3]) } }
}
pub fn d_NestEOLM() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NestEOLM", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("l", Ty::Named(d_LeafEO)) }, FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("m", Ty::Arr(Box::new(Ty::Named(d_LeafEO)), 2)) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("t", Ty::Named(d_LeafEO)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct NestEOLL {
    pub l: LeafEO,
    pub x: u16,
    pub m: [LeafEO; 2],
    #[deku(bit_order = "lsb")]
    pub t: LeafEO,
}
impl Conv for NestEOLL {
    fn tv(&self) -> Val { Val::Rec(vec![self.l.tv(), self.x.tv(), self.m.tv(), self.t.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NestEOLL { l: Conv::fv(&i[0]), x: Conv::fv(&i[1]), m: Conv::fv(&i[2]), t: Conv::fv(&i[3]) } }
}
pub fn d_NestEOLL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NestEOLL", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("l", Ty::Named(d_LeafEO)) }, FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("m", Ty::Arr(Box::new(Ty::Named(d_LeafEO)), 2)) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("t", Ty::Named(d_LeafEO)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct NestEB {
    pub l: LeafE,
    pub x: u16,
    pub m: [LeafE; 2],
    #[deku(endian = "big")]
    pub f: LeafE,
    pub t: (u16, LeafE,),
}
impl Conv for NestEB {
    fn tv(&self) -> Val { Val::Rec(vec![self.l.tv(), self.x.tv(), self.m.tv(), self.f.tv(), self.t.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NestEB { l: Conv::fv(&i[0]), x: Conv::fv(&i[1]), m: Conv::fv(&i[2]), f: Conv::fv(&i[3]), t: Conv::fv(&i[4]) } }
}
pub fn d_NestEB() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NestEB", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("l", Ty::Named(d_LeafE)) }, FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("m", Ty::Arr(Box::new(Ty::Named(d_LeafE)), 2)) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("f", Ty::Named(d_LeafE)) }, FieldD { ..FieldD::new("t", Ty::Tup(vec![Ty::Int { w: 16, s: false }, Ty::Named(d_LeafE)])) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "msb")]
pub struct NestEOBM {
    pub l: LeafEO,
    pub x: u16,
    pub m: [LeafEO; 2],
    #[deku(bit_order = "msb")]
    pub t: LeafEO,
}
impl Conv for NestEOBM {
    fn tv(&self) -> Val { Val::Rec(vec![self.l.tv(), self.x.tv(), self.m.tv(), self.t.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NestEOBM { l: Conv::fv(&i[0]), x: Conv::fv(&i[1]), m: Conv::fv(&i[2]), t: Conv::fv(&i[3]) } }
}
pub fn d_NestEOBM() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NestEOBM", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("l", Ty::Named(d_LeafEO)) }, FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("m", Ty::Arr(Box::new(Ty::Named(d_LeafEO)), 2)) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("t", Ty::Named(d_LeafEO)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Msb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct NestEOBL {
    pub l: LeafEO,
    pub x: u16,
    pub m: [LeafEO; 2],
    #[deku(bit_order = "lsb")]
    pub t: LeafEO,
}
impl Conv for NestEOBL {
    fn tv(&self) -> Val { Val::Rec(vec![self.l.tv(), self.x.tv(), self.m.tv(), self.t.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NestEOBL { l: Conv::fv(&i[0]), x: Conv::fv(&i[1]), m: Conv::fv(&i[2]), t: Conv::fv(&i[3]) } }
}
pub fn d_NestEOBL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NestEOBL", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("l", Ty::Named(d_LeafEO)) }, FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("m", Ty::Arr(Box::new(Ty::Named(d_LeafEO)), 2)) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("t", Ty::Named(d_LeafEO)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(bit_order = "lsb")]
pub struct NestO {
    pub l: LeafO,
    pub m: [LeafO; 2],
}
impl Conv for NestO {
    fn tv(&self) -> Val { Val::Rec(vec![self.l.tv(), self.m.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NestO { l: Conv::fv(&i[0]), m: Conv::fv(&i[1]) } }
}
pub fn d_NestO() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NestO", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("l", Ty::Named(d_LeafO)) }, FieldD { ..FieldD::new("m", Ty::Arr(Box::new(Ty::Named(d_LeafO)), 2)) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct NestOF {
    #[deku(bit_order = "lsb")]
    pub l: LeafO,
    #[deku(bit_order = "msb")]
    pub m: LeafO,
    #[deku(bit_order = "lsb")]
    pub k: (LeafO, LeafO,),
}
impl Conv for NestOF {
    fn tv(&self) -> Val { Val::Rec(vec![self.l.tv(), self.m.tv(), self.k.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NestOF { l: Conv::fv(&i[0]), m: Conv::fv(&i[1]), k: Conv::fv(&i[2]) } }
}
pub fn d_NestOF() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NestOF", kind: Kind::Struct { fields: vec![FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("l", Ty::Named(d_LeafO)) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), ..FieldD::new("m", Ty::Named(d_LeafO)) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), ..FieldD::new("k", Ty::Tup(vec![Ty::Named(d_LeafO), Ty::Named(d_LeafO)])) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct NestX {
    pub k: u8,
    #[deku(ctx = "((*k as i128)) as u8")]
    pub l: LeafX,
    #[deku(ctx = "(((*k as i128) + 1)) as u8")]
    pub m: LeafX,
    #[deku(ctx = "(2) as u8")]
    pub c: LeafX,
}
impl Conv for NestX {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.l.tv(), self.m.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NestX { k: Conv::fv(&i[0]), l: Conv::fv(&i[1]), m: Conv::fv(&i[2]), c: Conv::fv(&i[3]) } }
}
pub fn d_NestX() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NestX", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { ctx: vec![b(Bop::And, X::F(0), l(0xff))], ..FieldD::new("l", Ty::Named(d_LeafX)) }, FieldD { ctx: vec![b(Bop::And, b(Bop::Add, X::F(0), l(1)), l(0xff))], ..FieldD::new("m", Ty::Named(d_LeafX)) }, FieldD { ctx: vec![b(Bop::And, l(2), l(0xff))], ..FieldD::new("c", Ty::Named(d_LeafX)) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct NestEX {
    pub k: u8,
    #[deku(ctx = "((*k as i128)) as usize")]
    pub l: LeafEX,
    #[deku(endian = "big", ctx = "((((*k as i128) * 3) + 1)) as usize")]
    pub m: LeafEX,
}
impl Conv for NestEX {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.l.tv(), self.m.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NestEX { k: Conv::fv(&i[0]), l: Conv::fv(&i[1]), m: Conv::fv(&i[2]) } }
}
pub fn d_NestEX() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NestEX", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { ctx: vec![b(Bop::And, X::F(0), l(0xffffffffffffffff))], ..FieldD::new("l", Ty::Named(d_LeafEX)) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ctx: vec![b(Bop::And, b(Bop::Add, b(Bop::Mul, X::F(0), l(3)), l(1)), l(0xffffffffffffffff))], ..FieldD::new("m", Ty::Named(d_LeafEX)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct NestW {
    pub k: u8,
    #[deku(ctx = "((*k as i128)) as usize")]
    pub l: LeafBS,
    #[deku(ctx = "((*k as i128)) as usize")]
    pub m: [LeafBS; 3],
}
impl Conv for NestW {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.l.tv(), self.m.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NestW { k: Conv::fv(&i[0]), l: Conv::fv(&i[1]), m: Conv::fv(&i[2]) } }
}
pub fn d_NestW() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NestW", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(1, 8), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { ctx: vec![b(Bop::And, X::F(0), l(0xffffffffffffffff))], ..FieldD::new("l", Ty::Named(d_LeafBS)) }, FieldD { ctx: vec![b(Bop::And, X::F(0), l(0xffffffffffffffff))], ..FieldD::new("m", Ty::Arr(Box::new(Ty::Named(d_LeafBS)), 3)) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(ctx = "a: u8, b: u8")]
pub struct TwoCtx {
    #[deku(count = "(((a as i128) % 4) + ((b as i128) % 3))")]
    pub a: Vec<u8>,
    pub b: u8,
}
impl Conv for TwoCtx {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; TwoCtx { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_TwoCtx() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "TwoCtx", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Count(b(Bop::Add, b(Bop::Rem, X::C(0), l(4)), b(Bop::Rem, X::C(1), l(3)))), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct NestTwo {
    pub x: u8,
    pub y: u8,
    #[deku(ctx = "((*x as i128)) as u8, ((*y as i128)) as u8")]
    pub t: TwoCtx,
    pub z: u16,
}
impl Conv for NestTwo {
    fn tv(&self) -> Val { Val::Rec(vec![self.x.tv(), self.y.tv(), self.t.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; NestTwo { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]), t: Conv::fv(&i[2]), z: Conv::fv(&i[3]) } }
}
pub fn d_NestTwo() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "NestTwo", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }, FieldD { ctx: vec![b(Bop::And, X::F(0), l(0xff)), b(Bop::And, X::F(1), l(0xff))], ..FieldD::new("t", Ty::Named(d_TwoCtx)) }, FieldD { ..FieldD::new("z", Ty::Int { w: 16, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct Mid {
    pub h: u8,
    pub l: LeafE,
    #[deku(ctx = "((*h as i128)) as usize")]
    pub m: LeafEX,
}
impl Conv for Mid {
    fn tv(&self) -> Val { Val::Rec(vec![self.h.tv(), self.l.tv(), self.m.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Mid { h: Conv::fv(&i[0]), l: Conv::fv(&i[1]), m: Conv::fv(&i[2]) } }
}
pub fn d_Mid() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Mid", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("h", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("l", Ty::Named(d_LeafE)) }, FieldD { ctx: vec![b(Bop::And, X::F(0), l(0xffffffffffffffff))], ..FieldD::new("m", Ty::Named(d_LeafEX)) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct Deep {
    pub a: Mid,
    pub b: [Mid; 2],
    #[deku(endian = "little")]
    pub c: Mid,
}
impl Conv for Deep {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Deep { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_Deep() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Deep", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Named(d_Mid)) }, FieldD { ..FieldD::new("b", Ty::Arr(Box::new(Ty::Named(d_Mid)), 2)) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("c", Ty::Named(d_Mid)) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(ctx = "n: usize", ctx_default = "3")]
pub struct CtxDef {
    pub a: u8,
    #[deku(count = "(n as i128)")]
    pub v: Vec<u8>,
}
impl Conv for CtxDef {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CtxDef { a: Conv::fv(&i[0]), v: Conv::fv(&i[1]) } }
}
pub fn d_CtxDef() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CtxDef", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::C(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: Some(vec![3]) })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian, w: usize", ctx_default = "deku::ctx::Endian::Big, 6")]
pub struct CtxDef2 {
    pub a: u16,
    #[deku(bits = "((w as i128)) as usize")]
    pub v: u8,
}
impl Conv for CtxDef2 {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CtxDef2 { a: Conv::fv(&i[0]), v: Conv::fv(&i[1]) } }
}
pub fn d_CtxDef2() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CtxDef2", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(X::C(1)), ..FieldD::new("v", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: Some(vec![1, 6]) })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct BitsExpr {
    #[deku(bits = 4)]
    pub n: u8,
    #[deku(bits = "((*n as i128)) as usize")]
    pub a: u16,
    #[deku(bits = "(((*n as i128) + 2)) as usize")]
    pub b: i32,
    #[deku(bytes = "((((*n as i128) % 4) + 1)) as usize")]
    pub c: u32,
}
impl Conv for BitsExpr {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BitsExpr { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]) } }
}
pub fn d_BitsExpr() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BitsExpr", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(1, 15), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(X::F(0)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(b(Bop::Add, X::F(0), l(2))), ..FieldD::new("b", Ty::Int { w: 32, s: true }) }, FieldD { bytes: Some(b(Bop::Add, b(Bop::Rem, X::F(0), l(4)), l(1))), ..FieldD::new("c", Ty::Int { w: 32, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct BitsExprL {
    #[deku(bits = 4)]
    pub n: u8,
    #[deku(bits = "((*n as i128)) as usize")]
    pub a: u16,
    #[deku(bits = "(((*n as i128) + 2)) as usize")]
    pub b: i32,
}
impl Conv for BitsExprL {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BitsExprL { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_BitsExprL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BitsExprL", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(1, 15), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(X::F(0)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(b(Bop::Add, X::F(0), l(2))), ..FieldD::new("b", Ty::Int { w: 32, s: true }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

pub fn entries() -> Vec<Entry> {
    let mut v = vec![];
    v.push(Entry { name: "IntsNative", tags: &["size", "ty_bool", "ty_float", "ty_int"], decl: d_IntsNative, ops: ops::<IntsNative>(), deku_id: None, size_bits: Some((<IntsNative as DekuSize>::SIZE_BITS, 728)) });
    v.push(Entry { name: "IntsFNative", tags: &["size", "ty_int"], decl: d_IntsFNative, ops: ops::<IntsFNative>(), deku_id: None, size_bits: Some((<IntsFNative as DekuSize>::SIZE_BITS, 624)) });
    v.push(Entry { name: "IntsLittle", tags: &["endian", "size", "ty_bool", "ty_float", "ty_int"], decl: d_IntsLittle, ops: ops::<IntsLittle>(), deku_id: None, size_bits: Some((<IntsLittle as DekuSize>::SIZE_BITS, 728)) });
    v.push(Entry { name: "IntsFLittle", tags: &["endian", "size", "ty_int"], decl: d_IntsFLittle, ops: ops::<IntsFLittle>(), deku_id: None, size_bits: Some((<IntsFLittle as DekuSize>::SIZE_BITS, 624)) });
    v.push(Entry { name: "IntsBig", tags: &["endian", "size", "ty_bool", "ty_float", "ty_int"], decl: d_IntsBig, ops: ops::<IntsBig>(), deku_id: None, size_bits: Some((<IntsBig as DekuSize>::SIZE_BITS, 728)) });
    v.push(Entry { name: "IntsFBig", tags: &["endian", "size", "ty_int"], decl: d_IntsFBig, ops: ops::<IntsFBig>(), deku_id: None, size_bits: Some((<IntsFBig as DekuSize>::SIZE_BITS, 624)) });
    v.push(Entry { name: "BitsNN", tags: &["bits", "size", "ty_int"], decl: d_BitsNN, ops: ops::<BitsNN>(), deku_id: None, size_bits: Some((<BitsNN as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "SBitsNN", tags: &["bits", "size", "ty_int"], decl: d_SBitsNN, ops: ops::<SBitsNN>(), deku_id: None, size_bits: Some((<SBitsNN as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "UnalNN", tags: &["bits", "size", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_tup"], decl: d_UnalNN, ops: ops::<UnalNN>(), deku_id: None, size_bits: Some((<UnalNN as DekuSize>::SIZE_BITS, 368)) });
    v.push(Entry { name: "BitsNM", tags: &["bits", "order", "size", "ty_int"], decl: d_BitsNM, ops: ops::<BitsNM>(), deku_id: None, size_bits: Some((<BitsNM as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "SBitsNM", tags: &["bits", "order", "size", "ty_int"], decl: d_SBitsNM, ops: ops::<SBitsNM>(), deku_id: None, size_bits: Some((<SBitsNM as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "UnalNM", tags: &["bits", "order", "size", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_tup"], decl: d_UnalNM, ops: ops::<UnalNM>(), deku_id: None, size_bits: Some((<UnalNM as DekuSize>::SIZE_BITS, 368)) });
    v.push(Entry { name: "BitsNL", tags: &["bits", "order", "size", "ty_int"], decl: d_BitsNL, ops: ops::<BitsNL>(), deku_id: None, size_bits: Some((<BitsNL as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "SBitsNL", tags: &["bits", "order", "size", "ty_int"], decl: d_SBitsNL, ops: ops::<SBitsNL>(), deku_id: None, size_bits: Some((<SBitsNL as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "UnalNL", tags: &["bits", "order", "size", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_tup"], decl: d_UnalNL, ops: ops::<UnalNL>(), deku_id: None, size_bits: Some((<UnalNL as DekuSize>::SIZE_BITS, 368)) });
    v.push(Entry { name: "BitsLN", tags: &["bits", "endian", "size", "ty_int"], decl: d_BitsLN, ops: ops::<BitsLN>(), deku_id: None, size_bits: Some((<BitsLN as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "SBitsLN", tags: &["bits", "endian", "size", "ty_int"], decl: d_SBitsLN, ops: ops::<SBitsLN>(), deku_id: None, size_bits: Some((<SBitsLN as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "UnalLN", tags: &["bits", "endian", "size", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_tup"], decl: d_UnalLN, ops: ops::<UnalLN>(), deku_id: None, size_bits: Some((<UnalLN as DekuSize>::SIZE_BITS, 368)) });
    v.push(Entry { name: "BitsLM", tags: &["bits", "endian", "order", "size", "ty_int"], decl: d_BitsLM, ops: ops::<BitsLM>(), deku_id: None, size_bits: Some((<BitsLM as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "SBitsLM", tags: &["bits", "endian", "order", "size", "ty_int"], decl: d_SBitsLM, ops: ops::<SBitsLM>(), deku_id: None, size_bits: Some((<SBitsLM as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "UnalLM", tags: &["bits", "endian", "order", "size", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_tup"], decl: d_UnalLM, ops: ops::<UnalLM>(), deku_id: None, size_bits: Some((<UnalLM as DekuSize>::SIZE_BITS, 368)) });
    v.push(Entry { name: "BitsLL", tags: &["bits", "endian", "order", "size", "ty_int"], decl: d_BitsLL, ops: ops::<BitsLL>(), deku_id: None, size_bits: Some((<BitsLL as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "SBitsLL", tags: &["bits", "endian", "order", "size", "ty_int"], decl: d_SBitsLL, ops: ops::<SBitsLL>(), deku_id: None, size_bits: Some((<SBitsLL as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "UnalLL", tags: &["bits", "endian", "order", "size", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_tup"], decl: d_UnalLL, ops: ops::<UnalLL>(), deku_id: None, size_bits: Some((<UnalLL as DekuSize>::SIZE_BITS, 368)) });
    v.push(Entry { name: "BitsBN", tags: &["bits", "endian", "size", "ty_int"], decl: d_BitsBN, ops: ops::<BitsBN>(), deku_id: None, size_bits: Some((<BitsBN as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "SBitsBN", tags: &["bits", "endian", "size", "ty_int"], decl: d_SBitsBN, ops: ops::<SBitsBN>(), deku_id: None, size_bits: Some((<SBitsBN as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "UnalBN", tags: &["bits", "endian", "size", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_tup"], decl: d_UnalBN, ops: ops::<UnalBN>(), deku_id: None, size_bits: Some((<UnalBN as DekuSize>::SIZE_BITS, 368)) });
    v.push(Entry { name: "BitsBM", tags: &["bits", "endian", "order", "size", "ty_int"], decl: d_BitsBM, ops: ops::<BitsBM>(), deku_id: None, size_bits: Some((<BitsBM as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "SBitsBM", tags: &["bits", "endian", "order", "size", "ty_int"], decl: d_SBitsBM, ops: ops::<SBitsBM>(), deku_id: None, size_bits: Some((<SBitsBM as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "UnalBM", tags: &["bits", "endian", "order", "size", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_tup"], decl: d_UnalBM, ops: ops::<UnalBM>(), deku_id: None, size_bits: Some((<UnalBM as DekuSize>::SIZE_BITS, 368)) });
    v.push(Entry { name: "BitsBL", tags: &["bits", "endian", "order", "size", "ty_int"], decl: d_BitsBL, ops: ops::<BitsBL>(), deku_id: None, size_bits: Some((<BitsBL as DekuSize>::SIZE_BITS, 232)) });
    v.push(Entry { name: "SBitsBL", tags: &["bits", "endian", "order", "size", "ty_int"], decl: d_SBitsBL, ops: ops::<SBitsBL>(), deku_id: None, size_bits: Some((<SBitsBL as DekuSize>::SIZE_BITS, 219)) });
    v.push(Entry { name: "UnalBL", tags: &["bits", "endian", "order", "size", "ty_arr", "ty_bool", "ty_float", "ty_int", "ty_tup"], decl: d_UnalBL, ops: ops::<UnalBL>(), deku_id: None, size_bits: Some((<UnalBL as DekuSize>::SIZE_BITS, 368)) });
    v.push(Entry { name: "BytesN", tags: &["bytes", "size", "ty_int"], decl: d_BytesN, ops: ops::<BytesN>(), deku_id: None, size_bits: Some((<BytesN as DekuSize>::SIZE_BITS, 408)) });
    v.push(Entry { name: "BytesUN", tags: &["bits", "bytes", "size", "ty_int"], decl: d_BytesUN, ops: ops::<BytesUN>(), deku_id: None, size_bits: Some((<BytesUN as DekuSize>::SIZE_BITS, 416)) });
    v.push(Entry { name: "SBytesN", tags: &["bytes", "size", "ty_int"], decl: d_SBytesN, ops: ops::<SBytesN>(), deku_id: None, size_bits: Some((<SBytesN as DekuSize>::SIZE_BITS, 400)) });
    v.push(Entry { name: "BytesL", tags: &["bytes", "endian", "size", "ty_int"], decl: d_BytesL, ops: ops::<BytesL>(), deku_id: None, size_bits: Some((<BytesL as DekuSize>::SIZE_BITS, 408)) });
    v.push(Entry { name: "BytesUL", tags: &["bits", "bytes", "endian", "size", "ty_int"], decl: d_BytesUL, ops: ops::<BytesUL>(), deku_id: None, size_bits: Some((<BytesUL as DekuSize>::SIZE_BITS, 416)) });
    v.push(Entry { name: "SBytesL", tags: &["bytes", "endian", "size", "ty_int"], decl: d_SBytesL, ops: ops::<SBytesL>(), deku_id: None, size_bits: Some((<SBytesL as DekuSize>::SIZE_BITS, 400)) });
    v.push(Entry { name: "BytesB", tags: &["bytes", "endian", "size", "ty_int"], decl: d_BytesB, ops: ops::<BytesB>(), deku_id: None, size_bits: Some((<BytesB as DekuSize>::SIZE_BITS, 408)) });
    v.push(Entry { name: "BytesUB", tags: &["bits", "bytes", "endian", "size", "ty_int"], decl: d_BytesUB, ops: ops::<BytesUB>(), deku_id: None, size_bits: Some((<BytesUB as DekuSize>::SIZE_BITS, 416)) });
    v.push(Entry { name: "SBytesB", tags: &["bytes", "endian", "size", "ty_int"], decl: d_SBytesB, ops: ops::<SBytesB>(), deku_id: None, size_bits: Some((<SBytesB as DekuSize>::SIZE_BITS, 400)) });
    v.push(Entry { name: "Override", tags: &["bits", "endian", "size", "ty_int"], decl: d_Override, ops: ops::<Override>(), deku_id: None, size_bits: Some((<Override as DekuSize>::SIZE_BITS, 112)) });
    v.push(Entry { name: "OverrideBig", tags: &["bytes", "endian", "size", "ty_float", "ty_int"], decl: d_OverrideBig, ops: ops::<OverrideBig>(), deku_id: None, size_bits: Some((<OverrideBig as DekuSize>::SIZE_BITS, 200)) });
    v.push(Entry { name: "OrderFields", tags: &["bits", "endian", "order", "size", "ty_int"], decl: d_OrderFields, ops: ops::<OrderFields>(), deku_id: None, size_bits: Some((<OrderFields as DekuSize>::SIZE_BITS, 80)) });
    v.push(Entry { name: "NonZeroN", tags: &["ty_nz"], decl: d_NonZeroN, ops: ops::<NonZeroN>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "NonZeroL", tags: &["endian", "ty_nz"], decl: d_NonZeroL, ops: ops::<NonZeroL>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "NonZeroB", tags: &["endian", "ty_nz"], decl: d_NonZeroB, ops: ops::<NonZeroB>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "NonZeroBits", tags: &["bits", "bytes", "endian", "size", "ty_nz"], decl: d_NonZeroBits, ops: ops::<NonZeroBits>(), deku_id: None, size_bits: Some((<NonZeroBits as DekuSize>::SIZE_BITS, 88)) });
    v.push(Entry { name: "NonZeroLsb", tags: &["bits", "endian", "order", "size", "ty_nz"], decl: d_NonZeroLsb, ops: ops::<NonZeroLsb>(), deku_id: None, size_bits: Some((<NonZeroLsb as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "Strings", tags: &["ty_cstr", "ty_int"], decl: d_Strings, ops: ops::<Strings>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "StringFixed", tags: &["bytes", "ty_cstr", "ty_int"], decl: d_StringFixed, ops: ops::<StringFixed>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "StringFixed4", tags: &["bytes", "ty_cstr", "ty_int"], decl: d_StringFixed4, ops: ops::<StringFixed4>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "Ips", tags: &["endian", "ty_ip"], decl: d_Ips, ops: ops::<Ips>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "Bools", tags: &["bits", "size", "ty_bool", "ty_int"], decl: d_Bools, ops: ops::<Bools>(), deku_id: None, size_bits: Some((<Bools as DekuSize>::SIZE_BITS, 24)) });
    v.push(Entry { name: "BoolsLsb", tags: &["bits", "order", "size", "ty_bool", "ty_int"], decl: d_BoolsLsb, ops: ops::<BoolsLsb>(), deku_id: None, size_bits: Some((<BoolsLsb as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "Units", tags: &["ty_int", "ty_unit"], decl: d_Units, ops: ops::<Units>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "Floats", tags: &["endian", "size", "ty_float"], decl: d_Floats, ops: ops::<Floats>(), deku_id: None, size_bits: Some((<Floats as DekuSize>::SIZE_BITS, 192)) });
    v.push(Entry { name: "FloatUnal", tags: &["bits", "endian", "size", "ty_float", "ty_int"], decl: d_FloatUnal, ops: ops::<FloatUnal>(), deku_id: None, size_bits: Some((<FloatUnal as DekuSize>::SIZE_BITS, 104)) });
    v.push(Entry { name: "Arrays", tags: &["endian", "size", "ty_arr", "ty_bool", "ty_int"], decl: d_Arrays, ops: ops::<Arrays>(), deku_id: None, size_bits: Some((<Arrays as DekuSize>::SIZE_BITS, 200)) });
    v.push(Entry { name: "ArrayBits", tags: &["bits", "endian", "size", "ty_arr", "ty_int"], decl: d_ArrayBits, ops: ops::<ArrayBits>(), deku_id: None, size_bits: Some((<ArrayBits as DekuSize>::SIZE_BITS, 64)) });
    v.push(Entry { name: "ArrayBitsLsb", tags: &["bits", "endian", "order", "size", "ty_arr", "ty_int"], decl: d_ArrayBitsLsb, ops: ops::<ArrayBitsLsb>(), deku_id: None, size_bits: Some((<ArrayBitsLsb as DekuSize>::SIZE_BITS, 64)) });
    v.push(Entry { name: "ArrayBytes", tags: &["bytes", "endian", "size", "ty_arr", "ty_int"], decl: d_ArrayBytes, ops: ops::<ArrayBytes>(), deku_id: None, size_bits: Some((<ArrayBytes as DekuSize>::SIZE_BITS, 152)) });
    v.push(Entry { name: "Tuples", tags: &["endian", "size", "ty_arr", "ty_bool", "ty_int", "ty_tup"], decl: d_Tuples, ops: ops::<Tuples>(), deku_id: None, size_bits: Some((<Tuples as DekuSize>::SIZE_BITS, 192)) });
    v.push(Entry { name: "TupleMid", tags: &["endian", "size", "ty_int", "ty_tup"], decl: d_TupleMid, ops: ops::<TupleMid>(), deku_id: None, size_bits: Some((<TupleMid as DekuSize>::SIZE_BITS, 472)) });
    v.push(Entry { name: "TupleBits", tags: &["bits", "size", "ty_int", "ty_tup"], decl: d_TupleBits, ops: ops::<TupleBits>(), deku_id: None, size_bits: Some((<TupleBits as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "TupS", tags: &["bits", "endian", "size", "ty_int"], decl: d_TupS, ops: ops::<TupS>(), deku_id: None, size_bits: Some((<TupS as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "New", tags: &["endian", "size", "ty_int"], decl: d_New, ops: ops::<New>(), deku_id: None, size_bits: Some((<New as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "Unit0", tags: &["size"], decl: d_Unit0, ops: ops::<Unit0>(), deku_id: None, size_bits: Some((<Unit0 as DekuSize>::SIZE_BITS, 0)) });
    v.push(Entry { name: "Options", tags: &["bits", "endian", "ty_int", "ty_opt"], decl: d_Options, ops: ops::<Options>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "Pointers", tags: &["bits", "endian", "ty_arr", "ty_int", "ty_ptr"], decl: d_Pointers, ops: ops::<Pointers>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "Leaf", tags: &["endian", "size", "ty_int"], decl: d_Leaf, ops: ops::<Leaf>(), deku_id: None, size_bits: Some((<Leaf as DekuSize>::SIZE_BITS, 24)) });
    v.push(Entry { name: "LeafBits", tags: &["bits", "endian", "size", "ty_int"], decl: d_LeafBits, ops: ops::<LeafBits>(), deku_id: None, size_bits: Some((<LeafBits as DekuSize>::SIZE_BITS, 12)) });
    v.push(Entry { name: "Nest", tags: &["bits", "endian", "ty_arr", "ty_int", "ty_named", "ty_opt", "ty_ptr", "ty_tup"], decl: d_Nest, ops: ops::<Nest>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "NestEL", tags: &["bytes", "endian", "size", "ty_arr", "ty_int", "ty_named", "ty_tup"], decl: d_NestEL, ops: ops::<NestEL>(), deku_id: None, size_bits: Some((<NestEL as DekuSize>::SIZE_BITS, 272)) });
    v.push(Entry { name: "NestEOLM", tags: &["bits", "endian", "order", "size", "ty_arr", "ty_int", "ty_named"], decl: d_NestEOLM, ops: ops::<NestEOLM>(), deku_id: None, size_bits: Some((<NestEOLM as DekuSize>::SIZE_BITS, 144)) });
    v.push(Entry { name: "NestEOLL", tags: &["bits", "endian", "order", "size", "ty_arr", "ty_int", "ty_named"], decl: d_NestEOLL, ops: ops::<NestEOLL>(), deku_id: None, size_bits: Some((<NestEOLL as DekuSize>::SIZE_BITS, 144)) });
    v.push(Entry { name: "NestEB", tags: &["bytes", "endian", "size", "ty_arr", "ty_int", "ty_named", "ty_tup"], decl: d_NestEB, ops: ops::<NestEB>(), deku_id: None, size_bits: Some((<NestEB as DekuSize>::SIZE_BITS, 272)) });
    v.push(Entry { name: "NestEOBM", tags: &["bits", "endian", "order", "size", "ty_arr", "ty_int", "ty_named"], decl: d_NestEOBM, ops: ops::<NestEOBM>(), deku_id: None, size_bits: Some((<NestEOBM as DekuSize>::SIZE_BITS, 144)) });
    v.push(Entry { name: "NestEOBL", tags: &["bits", "endian", "order", "size", "ty_arr", "ty_int", "ty_named"], decl: d_NestEOBL, ops: ops::<NestEOBL>(), deku_id: None, size_bits: Some((<NestEOBL as DekuSize>::SIZE_BITS, 144)) });
    v.push(Entry { name: "NestO", tags: &["bits", "order", "size", "ty_arr", "ty_int", "ty_named"], decl: d_NestO, ops: ops::<NestO>(), deku_id: None, size_bits: Some((<NestO as DekuSize>::SIZE_BITS, 48)) });
    v.push(Entry { name: "NestOF", tags: &["bits", "order", "size", "ty_int", "ty_named", "ty_tup"], decl: d_NestOF, ops: ops::<NestOF>(), deku_id: None, size_bits: Some((<NestOF as DekuSize>::SIZE_BITS, 64)) });
    v.push(Entry { name: "NestX", tags: &["count", "ctx", "ty_int", "ty_list", "ty_named"], decl: d_NestX, ops: ops::<NestX>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "NestEX", tags: &["count", "ctx", "endian", "ty_int", "ty_list", "ty_named"], decl: d_NestEX, ops: ops::<NestEX>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "NestW", tags: &["bits", "ctx", "endian", "ty_arr", "ty_int", "ty_named"], decl: d_NestW, ops: ops::<NestW>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "NestTwo", tags: &["count", "ctx", "ty_int", "ty_list", "ty_named"], decl: d_NestTwo, ops: ops::<NestTwo>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "Deep", tags: &["bytes", "count", "ctx", "endian", "ty_arr", "ty_int", "ty_list", "ty_named"], decl: d_Deep, ops: ops::<Deep>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CtxDef", tags: &["count", "ty_int", "ty_list"], decl: d_CtxDef, ops: ops::<CtxDef>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CtxDef2", tags: &["bits", "endian", "ty_int"], decl: d_CtxDef2, ops: ops::<CtxDef2>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "BitsExpr", tags: &["bits", "bytes", "endian", "ty_int"], decl: d_BitsExpr, ops: ops::<BitsExpr>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "BitsExprL", tags: &["bits", "endian", "ty_int"], decl: d_BitsExprL, ops: ops::<BitsExprL>(), deku_id: None, size_bits: None });
    v
}
