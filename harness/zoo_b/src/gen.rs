// @generated by gen_zoo.py
#![allow(clippy::all, unused_parens, unused_variables, dead_code, non_camel_case_types, non_snake_case, unused_imports, unused_mut)]
use deku::prelude::*;
use std::sync::OnceLock;
use vcore::custom;
use vcore::model::*;
use vcore::ops::{deku_id, ops, Entry};
use vcore::val::{Conv, Val};

#[derive(DekuRead, DekuWrite, DekuSize, PartialEq, Eq, Hash)]
pub struct BLeaf {
    pub a: u8,
    #[deku(endian = "big")]
    pub b: u16,
}
impl Conv for BLeaf {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BLeaf { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_BLeaf() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BLeaf", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("b", Ty::Int { w: 16, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct BBits {
    #[deku(bits = 3)]
    pub a: u8,
    #[deku(bits = "2")]
    pub b: u8,
}
impl Conv for BBits {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BBits { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_BBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BBits", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct BLeafE {
    pub a: u16,
    pub b: u8,
}
impl Conv for BLeafE {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BLeafE { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_BLeafE() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BLeafE", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(ctx = "x: u8")]
pub struct BLeafX {
    pub a: u8,
    #[deku(count = "((x as i128) % 4)")]
    pub b: Vec<u8>,
}
impl Conv for BLeafX {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BLeafX { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_BLeafX() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BLeafX", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Rem, X::C(0), l(4))), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct BVar {
    pub n: u8,
    #[deku(count = "n")]
    pub v: Vec<u8>,
}
impl Conv for BVar {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BVar { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]) } }
}
pub fn d_BVar() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BVar", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntVec {
    pub n: u8,
    #[deku(count = "n")]
    pub a: Vec<u8>,
    #[deku(endian = "big")]
    pub m: u16,
    #[deku(endian = "big", count = "m")]
    pub b: Vec<u16>,
    pub c: u8,
}
impl Conv for CntVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.m.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntVec { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), m: Conv::fv(&i[2]), b: Conv::fv(&i[3]), c: Conv::fv(&i[4]) } }
}
pub fn d_CntVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntVec", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), hint: Hint::Range(0, 6), ..FieldD::new("m", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(2)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntNVec {
    pub n: u8,
    #[deku(count = "n")]
    pub a: Vec<BLeaf>,
    #[deku(count = "n")]
    pub b: Vec<BVar>,
    pub c: u8,
}
impl Conv for CntNVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntNVec { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]) } }
}
pub fn d_CntNVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntNVec", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Named(d_BLeaf)))) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Named(d_BVar)))) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntBitsVec {
    #[deku(bits = 4)]
    pub n: u8,
    #[deku(bits = "5", count = "n")]
    pub a: Vec<u8>,
    #[deku(count = "n")]
    pub b: Vec<BBits>,
    #[deku(bits = 4)]
    pub c: u8,
}
impl Conv for CntBitsVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntBitsVec { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]) } }
}
pub fn d_CntBitsVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntBitsVec", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Named(d_BBits)))) }, FieldD { bits: Some(l(4)), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct BytesRVec {
    pub n: u8,
    #[deku(bytes_read = "n")]
    pub a: Vec<u8>,
    #[deku(endian = "little", bytes_read = "((*n as i128) * 2)")]
    pub b: Vec<u16>,
    pub c: u8,
}
impl Conv for BytesRVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BytesRVec { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]) } }
}
pub fn d_BytesRVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BytesRVec", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(2))), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct BitsRVec {
    pub n: u8,
    #[deku(bits_read = "((*n as i128) * 8)")]
    pub a: Vec<u8>,
    #[deku(bits = 3, bits_read = "((*n as i128) * 3)")]
    pub b: Vec<u8>,
    #[deku(bits = "5")]
    pub c: u8,
}
impl Conv for BitsRVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BitsRVec { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]) } }
}
pub fn d_BitsRVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BitsRVec", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(3))), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(5)), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct UntilVec {
    #[deku(until = "|v: &u8| ((*v as i128) == 0)")]
    pub a: Vec<u8>,
    #[deku(endian = "big", until = "|v: &u16| (((*v as i128) & 255) == 0)")]
    pub b: Vec<u16>,
    pub c: u8,
}
impl Conv for UntilVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UntilVec { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_UntilVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UntilVec", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Until(b(Bop::Eq, b(Bop::And, X::Elem, l(255)), l(0))), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct UntilNVec {
    pub s: u8,
    #[deku(until = "|v: &BLeaf| ((v.a as i128) == (*s as i128))")]
    pub a: Vec<BLeaf>,
    pub c: u8,
}
impl Conv for UntilNVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.s.tv(), self.a.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UntilNVec { s: Conv::fv(&i[0]), a: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_UntilNVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UntilNVec", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("s", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::ElemAt(0), X::F(0))), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Named(d_BLeaf)))) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllVec {
    pub h: u8,
    #[deku(read_all)]
    pub a: Vec<u8>,
}
impl Conv for AllVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.h.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllVec { h: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_AllVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllVec", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("h", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllNVec {
    #[deku(read_all)]
    pub a: Vec<BVar>,
}
impl Conv for AllNVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllNVec { a: Conv::fv(&i[0]) } }
}
pub fn d_AllNVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllNVec", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Named(d_BVar)))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllBVec {
    pub p: u8,
    #[deku(endian = "big", bytes = 3, read_all)]
    pub a: Vec<u32>,
}
impl Conv for AllBVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllBVec { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_AllBVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllBVec", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(3)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllB2Vec {
    pub p: u8,
    #[deku(endian = "big", bytes = "2", read_all)]
    pub a: Vec<(u32, u64,)>,
}
impl Conv for AllB2Vec {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllB2Vec { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_AllB2Vec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllB2Vec", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(2)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 64, s: false }])))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllBlVec {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(endian = "little", bytes = "5", read_all)]
    pub a: Vec<u64>,
}
impl Conv for AllBlVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllBlVec { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_AllBlVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllBlVec", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(5)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllBitsVec {
    #[deku(bits = 4)]
    pub p: u8,
    #[deku(bits = 10, read_all)]
    pub a: Vec<u16>,
}
impl Conv for AllBitsVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllBitsVec { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_AllBitsVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllBitsVec", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(10)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllFVec {
    #[deku(read_all)]
    pub a: Vec<f64>,
}
impl Conv for AllFVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllFVec { a: Conv::fv(&i[0]) } }
}
pub fn d_AllFVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllFVec", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Float { w: 64 }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllAVec {
    #[deku(endian = "little", read_all)]
    pub a: Vec<[u16; 3]>,
}
impl Conv for AllAVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllAVec { a: Conv::fv(&i[0]) } }
}
pub fn d_AllAVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllAVec", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 3)))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct All16Vec {
    pub p: u8,
    #[deku(endian = "big", read_all)]
    pub a: Vec<u16>,
}
impl Conv for All16Vec {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; All16Vec { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_All16Vec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "All16Vec", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntBs {
    pub n: u8,
    #[deku(count = "n")]
    pub a: Box<[u8]>,
    #[deku(endian = "big")]
    pub m: u16,
    #[deku(endian = "big", count = "m")]
    pub b: Box<[u16]>,
    pub c: u8,
}
impl Conv for CntBs {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.m.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntBs { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), m: Conv::fv(&i[2]), b: Conv::fv(&i[3]), c: Conv::fv(&i[4]) } }
}
pub fn d_CntBs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntBs", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), hint: Hint::Range(0, 6), ..FieldD::new("m", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(2)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntNBs {
    pub n: u8,
    #[deku(count = "n")]
    pub a: Box<[BLeaf]>,
    #[deku(count = "n")]
    pub b: Box<[BVar]>,
    pub c: u8,
}
impl Conv for CntNBs {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntNBs { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]) } }
}
pub fn d_CntNBs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntNBs", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Named(d_BLeaf)))) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Named(d_BVar)))) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntBitsBs {
    #[deku(bits = 4)]
    pub n: u8,
    #[deku(bits = "5", count = "n")]
    pub a: Box<[u8]>,
    #[deku(count = "n")]
    pub b: Box<[BBits]>,
    #[deku(bits = 4)]
    pub c: u8,
}
impl Conv for CntBitsBs {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntBitsBs { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]) } }
}
pub fn d_CntBitsBs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntBitsBs", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Named(d_BBits)))) }, FieldD { bits: Some(l(4)), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct BytesRBs {
    pub n: u8,
    #[deku(bytes_read = "n")]
    pub a: Box<[u8]>,
    #[deku(endian = "little", bytes_read = "((*n as i128) * 2)")]
    pub b: Box<[u16]>,
    pub c: u8,
}
impl Conv for BytesRBs {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BytesRBs { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]) } }
}
pub fn d_BytesRBs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BytesRBs", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(2))), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct BitsRBs {
    pub n: u8,
    #[deku(bits_read = "((*n as i128) * 8)")]
    pub a: Box<[u8]>,
    #[deku(bits = 3, bits_read = "((*n as i128) * 3)")]
    pub b: Box<[u8]>,
    #[deku(bits = "5")]
    pub c: u8,
}
impl Conv for BitsRBs {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BitsRBs { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]) } }
}
pub fn d_BitsRBs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BitsRBs", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(3))), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(5)), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct UntilBs {
    #[deku(until = "|v: &u8| ((*v as i128) == 0)")]
    pub a: Box<[u8]>,
    #[deku(endian = "big", until = "|v: &u16| (((*v as i128) & 255) == 0)")]
    pub b: Box<[u16]>,
    pub c: u8,
}
impl Conv for UntilBs {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UntilBs { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_UntilBs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UntilBs", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Until(b(Bop::Eq, b(Bop::And, X::Elem, l(255)), l(0))), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct UntilNBs {
    pub s: u8,
    #[deku(until = "|v: &BLeaf| ((v.a as i128) == (*s as i128))")]
    pub a: Box<[BLeaf]>,
    pub c: u8,
}
impl Conv for UntilNBs {
    fn tv(&self) -> Val { Val::Rec(vec![self.s.tv(), self.a.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UntilNBs { s: Conv::fv(&i[0]), a: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_UntilNBs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UntilNBs", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("s", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::ElemAt(0), X::F(0))), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Named(d_BLeaf)))) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllBs {
    pub h: u8,
    #[deku(read_all)]
    pub a: Box<[u8]>,
}
impl Conv for AllBs {
    fn tv(&self) -> Val { Val::Rec(vec![self.h.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllBs { h: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_AllBs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllBs", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("h", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllNBs {
    #[deku(read_all)]
    pub a: Box<[BVar]>,
}
impl Conv for AllNBs {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllNBs { a: Conv::fv(&i[0]) } }
}
pub fn d_AllNBs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllNBs", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Named(d_BVar)))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllBBs {
    pub p: u8,
    #[deku(endian = "big", bytes = 3, read_all)]
    pub a: Box<[u32]>,
}
impl Conv for AllBBs {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllBBs { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_AllBBs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllBBs", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(3)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllB2Bs {
    pub p: u8,
    #[deku(endian = "big", bytes = "2", read_all)]
    pub a: Box<[(u32, u64,)]>,
}
impl Conv for AllB2Bs {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllB2Bs { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_AllB2Bs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllB2Bs", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(2)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 64, s: false }])))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllBlBs {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(endian = "little", bytes = "5", read_all)]
    pub a: Box<[u64]>,
}
impl Conv for AllBlBs {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllBlBs { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_AllBlBs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllBlBs", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(5)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllBitsBs {
    #[deku(bits = 4)]
    pub p: u8,
    #[deku(bits = 10, read_all)]
    pub a: Box<[u16]>,
}
impl Conv for AllBitsBs {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllBitsBs { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_AllBitsBs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllBitsBs", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(10)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllFBs {
    #[deku(read_all)]
    pub a: Box<[f64]>,
}
impl Conv for AllFBs {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllFBs { a: Conv::fv(&i[0]) } }
}
pub fn d_AllFBs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllFBs", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Float { w: 64 }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllABs {
    #[deku(endian = "little", read_all)]
    pub a: Box<[[u16; 3]]>,
}
impl Conv for AllABs {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllABs { a: Conv::fv(&i[0]) } }
}
pub fn d_AllABs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllABs", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 3)))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct All16Bs {
    pub p: u8,
    #[deku(endian = "big", read_all)]
    pub a: Box<[u16]>,
}
impl Conv for All16Bs {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; All16Bs { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_All16Bs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "All16Bs", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntAs {
    pub n: u8,
    #[deku(count = "n")]
    pub a: std::sync::Arc<[u8]>,
    #[deku(endian = "big")]
    pub m: u16,
    #[deku(endian = "big", count = "m")]
    pub b: std::sync::Arc<[u16]>,
    pub c: u8,
}
impl Conv for CntAs {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.m.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntAs { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), m: Conv::fv(&i[2]), b: Conv::fv(&i[3]), c: Conv::fv(&i[4]) } }
}
pub fn d_CntAs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntAs", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), hint: Hint::Range(0, 6), ..FieldD::new("m", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(2)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntNAs {
    pub n: u8,
    #[deku(count = "n")]
    pub a: std::sync::Arc<[BLeaf]>,
    #[deku(count = "n")]
    pub b: std::sync::Arc<[BVar]>,
    pub c: u8,
}
impl Conv for CntNAs {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntNAs { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]) } }
}
pub fn d_CntNAs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntNAs", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Named(d_BLeaf)))) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Named(d_BVar)))) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntBitsAs {
    #[deku(bits = 4)]
    pub n: u8,
    #[deku(bits = "5", count = "n")]
    pub a: std::sync::Arc<[u8]>,
    #[deku(count = "n")]
    pub b: std::sync::Arc<[BBits]>,
    #[deku(bits = 4)]
    pub c: u8,
}
impl Conv for CntBitsAs {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntBitsAs { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]) } }
}
pub fn d_CntBitsAs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntBitsAs", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Named(d_BBits)))) }, FieldD { bits: Some(l(4)), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct BytesRAs {
    pub n: u8,
    #[deku(bytes_read = "n")]
    pub a: std::sync::Arc<[u8]>,
    #[deku(endian = "little", bytes_read = "((*n as i128) * 2)")]
    pub b: std::sync::Arc<[u16]>,
    pub c: u8,
}
impl Conv for BytesRAs {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BytesRAs { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]) } }
}
pub fn d_BytesRAs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BytesRAs", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(2))), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct BitsRAs {
    pub n: u8,
    #[deku(bits_read = "((*n as i128) * 8)")]
    pub a: std::sync::Arc<[u8]>,
    #[deku(bits = 3, bits_read = "((*n as i128) * 3)")]
    pub b: std::sync::Arc<[u8]>,
    #[deku(bits = "5")]
    pub c: u8,
}
impl Conv for BitsRAs {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BitsRAs { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]) } }
}
pub fn d_BitsRAs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BitsRAs", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(3)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(3))), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(5)), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct UntilAs {
    #[deku(until = "|v: &u8| ((*v as i128) == 0)")]
    pub a: std::sync::Arc<[u8]>,
    #[deku(endian = "big", until = "|v: &u16| (((*v as i128) & 255) == 0)")]
    pub b: std::sync::Arc<[u16]>,
    pub c: u8,
}
impl Conv for UntilAs {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UntilAs { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_UntilAs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UntilAs", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Until(b(Bop::Eq, b(Bop::And, X::Elem, l(255)), l(0))), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct UntilNAs {
    pub s: u8,
    #[deku(until = "|v: &BLeaf| ((v.a as i128) == (*s as i128))")]
    pub a: std::sync::Arc<[BLeaf]>,
    pub c: u8,
}
impl Conv for UntilNAs {
    fn tv(&self) -> Val { Val::Rec(vec![self.s.tv(), self.a.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UntilNAs { s: Conv::fv(&i[0]), a: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_UntilNAs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UntilNAs", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("s", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::ElemAt(0), X::F(0))), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Named(d_BLeaf)))) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllAs {
    pub h: u8,
    #[deku(read_all)]
    pub a: std::sync::Arc<[u8]>,
}
impl Conv for AllAs {
    fn tv(&self) -> Val { Val::Rec(vec![self.h.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllAs { h: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_AllAs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllAs", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("h", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllNAs {
    #[deku(read_all)]
    pub a: std::sync::Arc<[BVar]>,
}
impl Conv for AllNAs {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllNAs { a: Conv::fv(&i[0]) } }
}
pub fn d_AllNAs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllNAs", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Named(d_BVar)))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllBAs {
    pub p: u8,
    #[deku(endian = "big", bytes = 3, read_all)]
    pub a: std::sync::Arc<[u32]>,
}
impl Conv for AllBAs {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllBAs { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_AllBAs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllBAs", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(3)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllB2As {
    pub p: u8,
    #[deku(endian = "big", bytes = "2", read_all)]
    pub a: std::sync::Arc<[(u32, u64,)]>,
}
impl Conv for AllB2As {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllB2As { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_AllB2As() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllB2As", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(2)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 32, s: false }, Ty::Int { w: 64, s: false }])))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllBlAs {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(endian = "little", bytes = "5", read_all)]
    pub a: std::sync::Arc<[u64]>,
}
impl Conv for AllBlAs {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllBlAs { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_AllBlAs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllBlAs", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(5)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllBitsAs {
    #[deku(bits = 4)]
    pub p: u8,
    #[deku(bits = 10, read_all)]
    pub a: std::sync::Arc<[u16]>,
}
impl Conv for AllBitsAs {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllBitsAs { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_AllBitsAs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllBitsAs", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(10)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllFAs {
    #[deku(read_all)]
    pub a: std::sync::Arc<[f64]>,
}
impl Conv for AllFAs {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllFAs { a: Conv::fv(&i[0]) } }
}
pub fn d_AllFAs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllFAs", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Float { w: 64 }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AllAAs {
    #[deku(endian = "little", read_all)]
    pub a: std::sync::Arc<[[u16; 3]]>,
}
impl Conv for AllAAs {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AllAAs { a: Conv::fv(&i[0]) } }
}
pub fn d_AllAAs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AllAAs", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 3)))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct All16As {
    pub p: u8,
    #[deku(endian = "big", read_all)]
    pub a: std::sync::Arc<[u16]>,
}
impl Conv for All16As {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; All16As { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_All16As() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "All16As", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::All, ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct BytesVar {
    pub n: u8,
    #[deku(bytes_read = "n")]
    pub a: Vec<BVar>,
    pub t: u8,
}
impl Conv for BytesVar {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.t.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BytesVar { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), t: Conv::fv(&i[2]) } }
}
pub fn d_BytesVar() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BytesVar", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 8), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Named(d_BVar)))) }, FieldD { ..FieldD::new("t", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct BitsElem {
    pub n: u8,
    #[deku(bits_read = "((*n as i128) * 5)")]
    pub a: Vec<BBits>,
    #[deku(bits = 3)]
    pub t: u8,
}
impl Conv for BitsElem {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.t.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BitsElem { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), t: Conv::fv(&i[2]) } }
}
pub fn d_BitsElem() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BitsElem", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 5), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(0), l(5))), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Named(d_BBits)))) }, FieldD { bits: Some(l(3)), ..FieldD::new("t", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct BytesBig {
    #[deku(endian = "big")]
    pub n: u16,
    #[deku(bytes_read = "n")]
    pub a: Vec<u8>,
    #[deku(endian = "big", bytes_read = "((*n as i128) * 4)")]
    pub b: Vec<u32>,
}
impl Conv for BytesBig {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BytesBig { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_BytesBig() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BytesBig", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), hint: Hint::Range(0, 40), ..FieldD::new("n", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bytes(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(4))), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntWide {
    #[deku(endian = "little")]
    pub n: u32,
    #[deku(endian = "little", count = "n")]
    pub a: Vec<u64>,
}
impl Conv for CntWide {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntWide { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_CntWide() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntWide", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::Range(0, 9), ..FieldD::new("n", Ty::Int { w: 32, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 64, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntHuge {
    #[deku(endian = "little")]
    pub n: u64,
    #[deku(count = "n")]
    pub a: Vec<u8>,
}
impl Conv for CntHuge {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntHuge { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_CntHuge() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntHuge", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::Range(0, 9), ..FieldD::new("n", Ty::Int { w: 64, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntHuge2 {
    #[deku(endian = "little")]
    pub n: u64,
    #[deku(count = "n")]
    pub a: Vec<BLeaf>,
}
impl Conv for CntHuge2 {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntHuge2 { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_CntHuge2() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntHuge2", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::Range(0, 9), ..FieldD::new("n", Ty::Int { w: 64, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Named(d_BLeaf)))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntHuge3 {
    #[deku(endian = "little")]
    pub n: u64,
    #[deku(endian = "big", count = "n")]
    pub a: Box<[u32]>,
}
impl Conv for CntHuge3 {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntHuge3 { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_CntHuge3() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntHuge3", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::Range(0, 9), ..FieldD::new("n", Ty::Int { w: 64, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 32, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntBig128 {
    #[deku(endian = "little")]
    pub n: u128,
    #[deku(endian = "big", count = "n")]
    pub a: Vec<u16>,
}
impl Conv for CntBig128 {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntBig128 { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_CntBig128() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntBig128", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::Range(0, 9), ..FieldD::new("n", Ty::Int { w: 128, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntSigned {
    #[deku(endian = "little")]
    pub n: i16,
    #[deku(count = "n")]
    pub a: Vec<u8>,
    #[deku(count = "n")]
    pub b: Vec<u16>,
}
impl Conv for CntSigned {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntSigned { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_CntSigned() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntSigned", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::Range(0, 9), ..FieldD::new("n", Ty::Int { w: 16, s: true }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct BytesHuge {
    #[deku(endian = "little")]
    pub n: u64,
    #[deku(bytes_read = "n")]
    pub a: Vec<u8>,
}
impl Conv for BytesHuge {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BytesHuge { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_BytesHuge() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BytesHuge", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::Range(0, 9), ..FieldD::new("n", Ty::Int { w: 64, s: false }) }, FieldD { lim: Lim::Bytes(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct BitsHuge {
    #[deku(endian = "little")]
    pub n: u64,
    #[deku(bits_read = "((*n as i128) * 8)")]
    pub a: Vec<u8>,
}
impl Conv for BitsHuge {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; BitsHuge { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_BitsHuge() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "BitsHuge", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::Range(0, 9), ..FieldD::new("n", Ty::Int { w: 64, s: false }) }, FieldD { lim: Lim::Bits(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct MapHuge {
    #[deku(endian = "little")]
    pub n: u64,
    #[deku(endian = "big", count = "n")]
    pub a: std::collections::HashMap<u32, u64>,
}
impl Conv for MapHuge {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; MapHuge { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_MapHuge() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MapHuge", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::Range(0, 5), ..FieldD::new("n", Ty::Int { w: 64, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Map(Box::new(Ty::Int { w: 32, s: false }), Box::new(Ty::Int { w: 64, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SetHuge {
    #[deku(endian = "little")]
    pub n: u64,
    #[deku(endian = "big", count = "n")]
    pub a: std::collections::HashSet<u32>,
}
impl Conv for SetHuge {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SetHuge { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_SetHuge() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SetHuge", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::Range(0, 5), ..FieldD::new("n", Ty::Int { w: 64, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Set(Box::new(Ty::Int { w: 32, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct StrHuge {
    #[deku(endian = "little")]
    pub n: u64,
    #[deku(bytes = "((*n as i128)) as usize")]
    pub s: std::ffi::CString,
}
impl Conv for StrHuge {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.s.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; StrHuge { n: Conv::fv(&i[0]), s: Conv::fv(&i[1]) } }
}
pub fn d_StrHuge() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "StrHuge", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::Range(1, 9), ..FieldD::new("n", Ty::Int { w: 64, s: false }) }, FieldD { bytes: Some(X::F(0)), ..FieldD::new("s", Ty::CStr) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct PadHuge {
    #[deku(endian = "little")]
    pub n: u32,
    #[deku(pad_bytes_before = "(*n as i128)")]
    pub a: u8,
    #[deku(pad_bits_after = "((*n as i128) * 8)")]
    pub b: u8,
}
impl Conv for PadHuge {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; PadHuge { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_PadHuge() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "PadHuge", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::Range(0, 5), ..FieldD::new("n", Ty::Int { w: 32, s: false }) }, FieldD { pad_bytes_before: Some(X::F(0)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct CntU8Lsb {
    pub n: u8,
    #[deku(bits = 4, count = "n")]
    pub a: Vec<u8>,
    #[deku(count = "n")]
    pub b: Vec<u8>,
}
impl Conv for CntU8Lsb {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntU8Lsb { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_CntU8Lsb() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntU8Lsb", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct CntU8End {
    pub n: u8,
    #[deku(count = "n")]
    pub a: Vec<u8>,
    #[deku(bits = "8", count = "n")]
    pub b: Vec<u8>,
}
impl Conv for CntU8End {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntU8End { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_CntU8End() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntU8End", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(8)), lim: Lim::Count(X::F(0)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntU8Una {
    #[deku(bits = 4)]
    pub p: u8,
    pub n: u8,
    #[deku(count = "n")]
    pub a: Vec<u8>,
    #[deku(bits = 4)]
    pub q: u8,
}
impl Conv for CntU8Una {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.n.tv(), self.a.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntU8Una { p: Conv::fv(&i[0]), n: Conv::fv(&i[1]), a: Conv::fv(&i[2]), q: Conv::fv(&i[3]) } }
}
pub fn d_CntU8Una() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntU8Una", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(4)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct CntU8UnaL {
    #[deku(bits = 4)]
    pub p: u8,
    pub n: u8,
    #[deku(count = "n")]
    pub a: Vec<u8>,
    #[deku(bits = 4)]
    pub q: u8,
}
impl Conv for CntU8UnaL {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.n.tv(), self.a.tv(), self.q.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntU8UnaL { p: Conv::fv(&i[0]), n: Conv::fv(&i[1]), a: Conv::fv(&i[2]), q: Conv::fv(&i[3]) } }
}
pub fn d_CntU8UnaL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntU8UnaL", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(4)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntU8Bytes {
    pub n: u8,
    #[deku(bytes = 1, count = "n")]
    pub a: Vec<u8>,
    #[deku(endian = "big", bytes = 1, count = "n")]
    pub c: Vec<u16>,
}
impl Conv for CntU8Bytes {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntU8Bytes { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_CntU8Bytes() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntU8Bytes", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(1)), lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bytes: Some(l(1)), lim: Lim::Count(X::F(0)), ..FieldD::new("c", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntI8 {
    pub n: u8,
    #[deku(count = "n")]
    pub a: Vec<i8>,
    #[deku(bits = 4, count = "n")]
    pub b: Vec<i8>,
}
impl Conv for CntI8 {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntI8 { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_CntI8() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntI8", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }, FieldD { bits: Some(l(4)), lim: Lim::Count(X::F(0)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 8, s: true }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntBool {
    pub n: u8,
    #[deku(count = "n")]
    pub a: Vec<bool>,
    #[deku(bits = 1, count = "((*n as i128) * 8)")]
    pub b: Vec<bool>,
}
impl Conv for CntBool {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntBool { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_CntBool() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntBool", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Bool))) }, FieldD { bits: Some(l(1)), lim: Lim::Count(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Bool))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct CntE {
    pub n: u8,
    #[deku(count = "n")]
    pub a: Vec<BLeafE>,
    #[deku(endian = "big", count = "n")]
    pub b: Vec<BLeafE>,
}
impl Conv for CntE {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntE { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_CntE() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntE", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Named(d_BLeafE)))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(0)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Named(d_BLeafE)))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntX {
    pub n: u8,
    #[deku(count = "n", ctx = "((*n as i128)) as u8")]
    pub a: Vec<BLeafX>,
    #[deku(count = "2", ctx = "(3) as u8")]
    pub b: Box<[BLeafX]>,
}
impl Conv for CntX {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntX { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_CntX() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntX", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ctx: vec![b(Bop::And, X::F(0), l(0xff))], ..FieldD::new("a", Ty::Vec(Box::new(Ty::Named(d_BLeafX)))) }, FieldD { lim: Lim::Count(l(2)), ctx: vec![b(Bop::And, l(3), l(0xff))], ..FieldD::new("b", Ty::Vec(Box::new(Ty::Named(d_BLeafX)))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntVV {
    pub n: u8,
    #[deku(endian = "big", count = "n")]
    pub a: Vec<[u16; 2]>,
    #[deku(endian = "little", count = "n")]
    pub b: Vec<(u8, u16,)>,
}
impl Conv for CntVV {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntVV { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_CntVV() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntVV", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Arr(Box::new(Ty::Int { w: 16, s: false }), 2)))) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Count(X::F(0)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: false }])))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntTupU {
    pub n: u8,
    #[deku(until = "|v: &(u8, u8,)| ((v.1 as i128) == 0)")]
    pub a: Vec<(u8, u8,)>,
    #[deku(until = "|v: &u8| ((*v as i128) == (*n as i128))")]
    pub b: Vec<u8>,
}
impl Conv for CntTupU {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntTupU { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_CntTupU() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntTupU", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::ElemAt(1), l(0))), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }])))) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, X::F(0))), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntStr {
    pub n: u8,
    #[deku(count = "n")]
    pub a: Vec<std::ffi::CString>,
    pub b: u8,
}
impl Conv for CntStr {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntStr { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_CntStr() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntStr", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::CStr))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntExpr {
    pub n: u8,
    pub m: u8,
    #[deku(endian = "big", count = "((*n as i128) + ((*m as i128) * 2))")]
    pub a: Vec<u16>,
    #[deku(count = "(((*n as i128) + (*m as i128)) % 4)")]
    pub b: Vec<u8>,
}
impl Conv for CntExpr {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.m.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntExpr { n: Conv::fv(&i[0]), m: Conv::fv(&i[1]), a: Conv::fv(&i[2]), b: Conv::fv(&i[3]) } }
}
pub fn d_CntExpr() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntExpr", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 6), ..FieldD::new("m", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(b(Bop::Add, X::F(0), b(Bop::Mul, X::F(1), l(2)))), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { lim: Lim::Count(b(Bop::Rem, b(Bop::Add, X::F(0), X::F(1)), l(4))), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntSub {
    pub n: u8,
    #[deku(endian = "big", count = "((*n as i128) - 2)")]
    pub a: Vec<u16>,
    pub b: u8,
}
impl Conv for CntSub {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntSub { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_CntSub() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntSub", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(2, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(b(Bop::Sub, X::F(0), l(2))), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CntLit {
    #[deku(count = "4")]
    pub a: Vec<u8>,
    #[deku(endian = "big", count = "2")]
    pub b: Vec<u16>,
    #[deku(bytes_read = "3")]
    pub c: Vec<u8>,
    #[deku(bits_read = "16")]
    pub d: Vec<u8>,
}
impl Conv for CntLit {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CntLit { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]) } }
}
pub fn d_CntLit() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CntLit", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Count(l(4)), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(l(2)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { lim: Lim::Bytes(l(3)), ..FieldD::new("c", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { lim: Lim::Bits(l(16)), ..FieldD::new("d", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct ArrVec {
    pub n: u8,
    #[deku(endian = "big", count = "n")]
    pub a: [Vec<u16>; 2],
    pub b: u8,
}
impl Conv for ArrVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; ArrVec { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_ArrVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ArrVec", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Arr(Box::new(Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))), 2)) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OptVec {
    pub n: u8,
    #[deku(endian = "big", count = "n")]
    pub a: Option<Vec<u16>>,
    #[deku(count = "n")]
    pub b: Box<Vec<u8>>,
}
impl Conv for OptVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OptVec { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_OptVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OptVec", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Opt(Box::new(Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))))) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("b", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SetC {
    pub n: u8,
    #[deku(endian = "big", count = "n")]
    pub a: std::collections::HashSet<u16>,
    pub b: u8,
}
impl Conv for SetC {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SetC { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_SetC() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SetC", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Set(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SetB {
    pub n: u8,
    #[deku(endian = "big", bytes_read = "((*n as i128) * 2)")]
    pub a: std::collections::HashSet<u16>,
    pub b: u8,
}
impl Conv for SetB {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SetB { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_SetB() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SetB", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(2))), ..FieldD::new("a", Ty::Set(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SetBits {
    #[deku(bits = 4)]
    pub n: u8,
    #[deku(bits = 4, bits_read = "((*n as i128) * 4)")]
    pub a: std::collections::HashSet<u8>,
    #[deku(bits = 4)]
    pub b: u8,
}
impl Conv for SetBits {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SetBits { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_SetBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SetBits", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(4))), ..FieldD::new("a", Ty::Set(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(4)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SetU {
    #[deku(until = "|v: &u8| ((*v as i128) == 0)")]
    pub a: std::collections::HashSet<u8>,
    pub b: u8,
}
impl Conv for SetU {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SetU { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_SetU() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SetU", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, l(0))), ..FieldD::new("a", Ty::Set(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SetA {
    pub b: u8,
    #[deku(endian = "little", read_all)]
    pub a: std::collections::HashSet<u16>,
}
impl Conv for SetA {
    fn tv(&self) -> Val { Val::Rec(vec![self.b.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SetA { b: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_SetA() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SetA", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::All, ..FieldD::new("a", Ty::Set(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SetN {
    pub n: u8,
    #[deku(count = "n")]
    pub a: std::collections::HashSet<BLeaf>,
    pub b: u8,
}
impl Conv for SetN {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SetN { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_SetN() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SetN", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Set(Box::new(Ty::Named(d_BLeaf)))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct MapC {
    pub n: u8,
    #[deku(endian = "big", count = "n")]
    pub a: std::collections::HashMap<u8, u16>,
    pub b: u8,
}
impl Conv for MapC {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; MapC { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_MapC() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MapC", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Map(Box::new(Ty::Int { w: 8, s: false }), Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct MapB {
    pub n: u8,
    #[deku(endian = "little", bytes_read = "((*n as i128) * 3)")]
    pub a: std::collections::HashMap<u8, u16>,
    pub b: u8,
}
impl Conv for MapB {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; MapB { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_MapB() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MapB", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(3))), ..FieldD::new("a", Ty::Map(Box::new(Ty::Int { w: 8, s: false }), Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct MapBits {
    #[deku(bits = 4)]
    pub n: u8,
    #[deku(bits = 4, bits_read = "((*n as i128) * 8)")]
    pub a: std::collections::HashMap<u8, u8>,
    #[deku(bits = 4)]
    pub b: u8,
}
impl Conv for MapBits {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; MapBits { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_MapBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MapBits", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), lim: Lim::Bits(b(Bop::Mul, X::F(0), l(8))), ..FieldD::new("a", Ty::Map(Box::new(Ty::Int { w: 8, s: false }), Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(4)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct MapU {
    #[deku(until = "|v: &(u8, u8)| ((v.0 as i128) == 0)")]
    pub a: std::collections::HashMap<u8, u8>,
    pub b: u8,
}
impl Conv for MapU {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; MapU { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_MapU() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MapU", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Until(b(Bop::Eq, X::ElemAt(0), l(0))), ..FieldD::new("a", Ty::Map(Box::new(Ty::Int { w: 8, s: false }), Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct MapA {
    pub b: u8,
    #[deku(endian = "little", read_all)]
    pub a: std::collections::HashMap<u8, u16>,
}
impl Conv for MapA {
    fn tv(&self) -> Val { Val::Rec(vec![self.b.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; MapA { b: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_MapA() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MapA", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::All, ..FieldD::new("a", Ty::Map(Box::new(Ty::Int { w: 8, s: false }), Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct MapN {
    pub n: u8,
    #[deku(count = "n")]
    pub a: std::collections::HashMap<u16, BVar>,
    pub b: u8,
}
impl Conv for MapN {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; MapN { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_MapN() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MapN", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("a", Ty::Map(Box::new(Ty::Int { w: 16, s: false }), Box::new(Ty::Named(d_BVar)))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "u8")]
pub enum EPlain {
    #[deku(id = "1")]
    A,
    #[deku(id = 2)]
    B(u8),
    #[deku(id = "0xff")]
    C { #[deku(endian = "big")] a: u16, b: u8 },
}
impl Conv for EPlain {
    fn tv(&self) -> Val { match self { EPlain::A => Val::Var(0, vec![]), EPlain::B(field_0) => Val::Var(1, vec![field_0.tv()]), EPlain::C { a, b } => Val::Var(2, vec![a.tv(), b.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EPlain::A }, Val::Var(1, i) => { let _ = i; EPlain::B(Conv::fv(&i[0])) }, Val::Var(2, i) => { let _ = i; EPlain::C { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_EPlain() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EPlain", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "C", id: Some(Val::N(255)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", id_type = "u16")]
pub enum E16L {
    #[deku(id = "0x0102")]
    A(u16),
    #[deku(id = 0x0201)]
    B,
    #[deku(id_pat = "3..=9 | 0x1000")]
    C { x: u16, y: u8 },
    #[deku(id = 7700)]
    D { x: u8 },
}
impl Conv for E16L {
    fn tv(&self) -> Val { match self { E16L::A(field_0) => Val::Var(0, vec![field_0.tv()]), E16L::B => Val::Var(1, vec![]), E16L::C { x, y } => Val::Var(2, vec![x.tv(), y.tv()]), E16L::D { x } => Val::Var(3, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; E16L::A(Conv::fv(&i[0])) }, Val::Var(1, i) => { let _ = i; E16L::B }, Val::Var(2, i) => { let _ = i; E16L::C { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; E16L::D { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_E16L() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "E16L", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(0x0102)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(0x0201)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(3, 9), (4096, 4096)]), default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7700)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", id_type = "u32")]
pub enum E32L {
    #[deku(id = "0x0102")]
    A(u16),
    #[deku(id = 0x0201)]
    B,
    #[deku(id_pat = "3..=9 | 0x1000")]
    C { x: u32, y: u8 },
    #[deku(id = 7700)]
    D { x: u8 },
}
impl Conv for E32L {
    fn tv(&self) -> Val { match self { E32L::A(field_0) => Val::Var(0, vec![field_0.tv()]), E32L::B => Val::Var(1, vec![]), E32L::C { x, y } => Val::Var(2, vec![x.tv(), y.tv()]), E32L::D { x } => Val::Var(3, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; E32L::A(Conv::fv(&i[0])) }, Val::Var(1, i) => { let _ = i; E32L::B }, Val::Var(2, i) => { let _ = i; E32L::C { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; E32L::D { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_E32L() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "E32L", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(0x0102)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(0x0201)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(3, 9), (4096, 4096)]), default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7700)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", id_type = "u64")]
pub enum E64L {
    #[deku(id = "0x0102")]
    A(u16),
    #[deku(id = 0x0201)]
    B,
    #[deku(id_pat = "3..=9 | 0x1000")]
    C { x: u64, y: u8 },
    #[deku(id = 7700)]
    D { x: u8 },
}
impl Conv for E64L {
    fn tv(&self) -> Val { match self { E64L::A(field_0) => Val::Var(0, vec![field_0.tv()]), E64L::B => Val::Var(1, vec![]), E64L::C { x, y } => Val::Var(2, vec![x.tv(), y.tv()]), E64L::D { x } => Val::Var(3, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; E64L::A(Conv::fv(&i[0])) }, Val::Var(1, i) => { let _ = i; E64L::B }, Val::Var(2, i) => { let _ = i; E64L::C { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; E64L::D { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_E64L() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "E64L", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 64, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(0x0102)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(0x0201)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(3, 9), (4096, 4096)]), default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7700)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", id_type = "i16")]
pub enum Ei16L {
    #[deku(id = 0x0102)]
    A(u16),
    #[deku(id = "0x0201")]
    B,
    #[deku(id_pat = "3..=9 | 0x1000")]
    C { x: i16, y: u8 },
    #[deku(id = "7700")]
    D { x: u8 },
}
impl Conv for Ei16L {
    fn tv(&self) -> Val { match self { Ei16L::A(field_0) => Val::Var(0, vec![field_0.tv()]), Ei16L::B => Val::Var(1, vec![]), Ei16L::C { x, y } => Val::Var(2, vec![x.tv(), y.tv()]), Ei16L::D { x } => Val::Var(3, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; Ei16L::A(Conv::fv(&i[0])) }, Val::Var(1, i) => { let _ = i; Ei16L::B }, Val::Var(2, i) => { let _ = i; Ei16L::C { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; Ei16L::D { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_Ei16L() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Ei16L", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(0x0102)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(0x0201)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(3, 9), (4096, 4096)]), default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7700)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", id_type = "u128")]
pub enum E128L {
    #[deku(id = 0x0102)]
    A(u16),
    #[deku(id = "0x0201")]
    B,
    #[deku(id_pat = "3..=9 | 0x1000")]
    C { x: u128, y: u8 },
    #[deku(id = "7700")]
    D { x: u8 },
}
impl Conv for E128L {
    fn tv(&self) -> Val { match self { E128L::A(field_0) => Val::Var(0, vec![field_0.tv()]), E128L::B => Val::Var(1, vec![]), E128L::C { x, y } => Val::Var(2, vec![x.tv(), y.tv()]), E128L::D { x } => Val::Var(3, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; E128L::A(Conv::fv(&i[0])) }, Val::Var(1, i) => { let _ = i; E128L::B }, Val::Var(2, i) => { let _ = i; E128L::C { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; E128L::D { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_E128L() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "E128L", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 128, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(0x0102)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(0x0201)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(3, 9), (4096, 4096)]), default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7700)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "u16")]
pub enum E16B {
    #[deku(id = "0x0102")]
    A(u16),
    #[deku(id = 0x0201)]
    B,
    #[deku(id_pat = "3..=9 | 0x1000")]
    C { x: u16, y: u8 },
    #[deku(id = 7700)]
    D { x: u8 },
}
impl Conv for E16B {
    fn tv(&self) -> Val { match self { E16B::A(field_0) => Val::Var(0, vec![field_0.tv()]), E16B::B => Val::Var(1, vec![]), E16B::C { x, y } => Val::Var(2, vec![x.tv(), y.tv()]), E16B::D { x } => Val::Var(3, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; E16B::A(Conv::fv(&i[0])) }, Val::Var(1, i) => { let _ = i; E16B::B }, Val::Var(2, i) => { let _ = i; E16B::C { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; E16B::D { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_E16B() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "E16B", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(0x0102)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(0x0201)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(3, 9), (4096, 4096)]), default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7700)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "u32")]
pub enum E32B {
    #[deku(id = "0x0102")]
    A(u16),
    #[deku(id = 0x0201)]
    B,
    #[deku(id_pat = "3..=9 | 0x1000")]
    C { x: u32, y: u8 },
    #[deku(id = 7700)]
    D { x: u8 },
}
impl Conv for E32B {
    fn tv(&self) -> Val { match self { E32B::A(field_0) => Val::Var(0, vec![field_0.tv()]), E32B::B => Val::Var(1, vec![]), E32B::C { x, y } => Val::Var(2, vec![x.tv(), y.tv()]), E32B::D { x } => Val::Var(3, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; E32B::A(Conv::fv(&i[0])) }, Val::Var(1, i) => { let _ = i; E32B::B }, Val::Var(2, i) => { let _ = i; E32B::C { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; E32B::D { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_E32B() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "E32B", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(0x0102)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(0x0201)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(3, 9), (4096, 4096)]), default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7700)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "u64")]
pub enum E64B {
    #[deku(id = "0x0102")]
    A(u16),
    #[deku(id = 0x0201)]
    B,
    #[deku(id_pat = "3..=9 | 0x1000")]
    C { x: u64, y: u8 },
    #[deku(id = 7700)]
    D { x: u8 },
}
impl Conv for E64B {
    fn tv(&self) -> Val { match self { E64B::A(field_0) => Val::Var(0, vec![field_0.tv()]), E64B::B => Val::Var(1, vec![]), E64B::C { x, y } => Val::Var(2, vec![x.tv(), y.tv()]), E64B::D { x } => Val::Var(3, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; E64B::A(Conv::fv(&i[0])) }, Val::Var(1, i) => { let _ = i; E64B::B }, Val::Var(2, i) => { let _ = i; E64B::C { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; E64B::D { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_E64B() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "E64B", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 64, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(0x0102)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(0x0201)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(3, 9), (4096, 4096)]), default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 64, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7700)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "i16")]
pub enum Ei16B {
    #[deku(id = 0x0102)]
    A(u16),
    #[deku(id = "0x0201")]
    B,
    #[deku(id_pat = "3..=9 | 0x1000")]
    C { x: i16, y: u8 },
    #[deku(id = "7700")]
    D { x: u8 },
}
impl Conv for Ei16B {
    fn tv(&self) -> Val { match self { Ei16B::A(field_0) => Val::Var(0, vec![field_0.tv()]), Ei16B::B => Val::Var(1, vec![]), Ei16B::C { x, y } => Val::Var(2, vec![x.tv(), y.tv()]), Ei16B::D { x } => Val::Var(3, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; Ei16B::A(Conv::fv(&i[0])) }, Val::Var(1, i) => { let _ = i; Ei16B::B }, Val::Var(2, i) => { let _ = i; Ei16B::C { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; Ei16B::D { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_Ei16B() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Ei16B", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(0x0102)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(0x0201)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(3, 9), (4096, 4096)]), default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: true }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7700)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "u128")]
pub enum E128B {
    #[deku(id = 0x0102)]
    A(u16),
    #[deku(id = "0x0201")]
    B,
    #[deku(id_pat = "3..=9 | 0x1000")]
    C { x: u128, y: u8 },
    #[deku(id = "7700")]
    D { x: u8 },
}
impl Conv for E128B {
    fn tv(&self) -> Val { match self { E128B::A(field_0) => Val::Var(0, vec![field_0.tv()]), E128B::B => Val::Var(1, vec![]), E128B::C { x, y } => Val::Var(2, vec![x.tv(), y.tv()]), E128B::D { x } => Val::Var(3, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; E128B::A(Conv::fv(&i[0])) }, Val::Var(1, i) => { let _ = i; E128B::B }, Val::Var(2, i) => { let _ = i; E128B::C { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; E128B::D { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_E128B() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "E128B", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 128, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(0x0102)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(0x0201)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(3, 9), (4096, 4096)]), default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 128, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7700)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "i8")]
pub enum ESigned {
    #[deku(id = "-1")]
    A,
    #[deku(id = "-128")]
    B { x: u8 },
    #[deku(id_pat = "-9..=-3")]
    C { i: i8, x: u8 },
}
impl Conv for ESigned {
    fn tv(&self) -> Val { match self { ESigned::A => Val::Var(0, vec![]), ESigned::B { x } => Val::Var(1, vec![x.tv()]), ESigned::C { i, x } => Val::Var(2, vec![i.tv(), x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; ESigned::A }, Val::Var(1, i) => { let _ = i; ESigned::B { x: Conv::fv(&i[0]) } }, Val::Var(2, i) => { let _ = i; ESigned::C { i: Conv::fv(&i[0]), x: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_ESigned() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ESigned", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(-1)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(-128)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(-9, -3)]), default: false, fields: vec![FieldD { ..FieldD::new("i", Ty::Int { w: 8, s: true }) }, FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "u8", bits = 2)]
pub enum EBits {
    #[deku(id = 0)]
    A { #[deku(bits = 6)] x: u8 },
    #[deku(id = "1")]
    B { #[deku(bits = 6)] x: u8 },
    #[deku(id = 2)]
    C(#[deku(bits = 6)] u8),
    #[deku(id = "3")]
    D { #[deku(bits = 6)] x: u8 },
}
impl Conv for EBits {
    fn tv(&self) -> Val { match self { EBits::A { x } => Val::Var(0, vec![x.tv()]), EBits::B { x } => Val::Var(1, vec![x.tv()]), EBits::C(field_0) => Val::Var(2, vec![field_0.tv()]), EBits::D { x } => Val::Var(3, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EBits::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EBits::B { x: Conv::fv(&i[0]) } }, Val::Var(2, i) => { let _ = i; EBits::C(Conv::fv(&i[0])) }, Val::Var(3, i) => { let _ = i; EBits::D { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_EBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EBits", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(2), bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(6)), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(6)), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "C", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(6)), ..FieldD::new("field_0", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(6)), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "u8", bits = 4)]
pub enum EBitsP {
    #[deku(id = "0")]
    A { #[deku(bits = 4)] x: u8 },
    #[deku(id_pat = "1..=9")]
    B { i: u8, #[deku(bits = 3)] x: u8 },
    #[deku(id_pat = "_")]
    C { i: u8, #[deku(bits = 4)] x: u8 },
}
impl Conv for EBitsP {
    fn tv(&self) -> Val { match self { EBitsP::A { x } => Val::Var(0, vec![x.tv()]), EBitsP::B { i, x } => Val::Var(1, vec![i.tv(), x.tv()]), EBitsP::C { i, x } => Val::Var(2, vec![i.tv(), x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EBitsP::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EBitsP::B { i: Conv::fv(&i[0]), x: Conv::fv(&i[1]) } }, Val::Var(2, i) => { let _ = i; EBitsP::C { i: Conv::fv(&i[0]), x: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_EBitsP() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EBitsP", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(4), bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: None, explicit_id: false, pat: Some(vec![(1, 9)]), default: false, fields: vec![FieldD { ..FieldD::new("i", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(3)), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(0, 255)]), default: false, fields: vec![FieldD { ..FieldD::new("i", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", bit_order = "lsb", id_type = "u8", bits = 3)]
pub enum EBitsL {
    #[deku(id = "0")]
    A { #[deku(bits = "5")] x: u8 },
    #[deku(id_pat = "1..=5")]
    B { i: u8, #[deku(bits = "5")] x: u8 },
    #[deku(id = "7")]
    C { #[deku(bits = 13)] x: u16 },
}
impl Conv for EBitsL {
    fn tv(&self) -> Val { match self { EBitsL::A { x } => Val::Var(0, vec![x.tv()]), EBitsL::B { i, x } => Val::Var(1, vec![i.tv(), x.tv()]), EBitsL::C { x } => Val::Var(2, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EBitsL::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EBitsL::B { i: Conv::fv(&i[0]), x: Conv::fv(&i[1]) } }, Val::Var(2, i) => { let _ = i; EBitsL::C { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_EBitsL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EBitsL", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(3), bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(5)), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: None, explicit_id: false, pat: Some(vec![(1, 5)]), default: false, fields: vec![FieldD { ..FieldD::new("i", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "C", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(13)), ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(bit_order = "lsb", id_type = "u8", bits = 4)]
pub enum EBitsIO {
    #[deku(id = 1)]
    A { #[deku(bits = 4)] x: u8 },
    #[deku(id = "8")]
    B { #[deku(bits = 4)] x: u8 },
}
impl Conv for EBitsIO {
    fn tv(&self) -> Val { match self { EBitsIO::A { x } => Val::Var(0, vec![x.tv()]), EBitsIO::B { x } => Val::Var(1, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EBitsIO::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EBitsIO::B { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_EBitsIO() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EBitsIO", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(4), bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(8)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "u32", bytes = 3)]
pub enum EBytes {
    #[deku(id = "0x010203")]
    A { x: u8 },
    #[deku(id = 7)]
    B,
    #[deku(id_pat = "0x10..=0xffff")]
    C { i: u32, z: u16 },
}
impl Conv for EBytes {
    fn tv(&self) -> Val { match self { EBytes::A { x } => Val::Var(0, vec![x.tv()]), EBytes::B => Val::Var(1, vec![]), EBytes::C { i, z } => Val::Var(2, vec![i.tv(), z.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EBytes::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EBytes::B }, Val::Var(2, i) => { let _ = i; EBytes::C { i: Conv::fv(&i[0]), z: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_EBytes() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EBytes", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: Some(3) }, variants: vec![VariantD { name: "A", id: Some(Val::N(0x010203)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(16, 65535)]), default: false, fields: vec![FieldD { ..FieldD::new("i", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("z", Ty::Int { w: 16, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", id_type = "u16", id_endian = "big")]
pub enum EIdEnd {
    #[deku(id = "0x0102")]
    A { x: u16 },
    #[deku(id_pat = "_")]
    B { i: u16, x: u16 },
}
impl Conv for EIdEnd {
    fn tv(&self) -> Val { match self { EIdEnd::A { x } => Val::Var(0, vec![x.tv()]), EIdEnd::B { i, x } => Val::Var(1, vec![i.tv(), x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EIdEnd::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EIdEnd::B { i: Conv::fv(&i[0]), x: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_EIdEnd() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EIdEnd", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: Some(EndianSpec::Lit(E::Be)), order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(0x0102)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "B", id: None, explicit_id: false, pat: Some(vec![(0, 65535)]), default: false, fields: vec![FieldD { ..FieldD::new("i", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "u16", id_endian = "little")]
pub enum EIdEnd2 {
    #[deku(id = 0x0102)]
    A { x: u16 },
    #[deku(id_pat = "0x0200..=0xfff0")]
    B { i: u16, x: u16 },
}
impl Conv for EIdEnd2 {
    fn tv(&self) -> Val { match self { EIdEnd2::A { x } => Val::Var(0, vec![x.tv()]), EIdEnd2::B { i, x } => Val::Var(1, vec![i.tv(), x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EIdEnd2::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EIdEnd2::B { i: Conv::fv(&i[0]), x: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_EIdEnd2() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EIdEnd2", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: Some(EndianSpec::Lit(E::Le)), order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(0x0102)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "B", id: None, explicit_id: false, pat: Some(vec![(512, 65520)]), default: false, fields: vec![FieldD { ..FieldD::new("i", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "u8")]
pub enum EDefault {
    #[deku(id = "1")]
    A { x: u8 },
    #[deku(id = 2, default)]
    B { #[deku(endian = "big")] y: u16 },
    #[deku(id = "3")]
    C,
}
impl Conv for EDefault {
    fn tv(&self) -> Val { match self { EDefault::A { x } => Val::Var(0, vec![x.tv()]), EDefault::B { y } => Val::Var(1, vec![y.tv()]), EDefault::C => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDefault::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EDefault::B { y: Conv::fv(&i[0]) } }, Val::Var(2, i) => { let _ = i; EDefault::C }, _ => panic!("shape") } }
}
pub fn d_EDefault() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDefault", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: true, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("y", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "C", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "u8")]
pub enum EDefaultU {
    #[deku(id = 1)]
    A { x: u8 },
    #[deku(id = "0", default)]
    Z,
}
impl Conv for EDefaultU {
    fn tv(&self) -> Val { match self { EDefaultU::A { x } => Val::Var(0, vec![x.tv()]), EDefaultU::Z => Val::Var(1, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDefaultU::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EDefaultU::Z }, _ => panic!("shape") } }
}
pub fn d_EDefaultU() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDefaultU", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "Z", id: Some(Val::N(0)), explicit_id: true, pat: None, default: true, fields: vec![] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "u8")]
#[repr(u8)]
pub enum EDisc {
    A = 1,
    B = 5,
    C = 6,
}
impl Conv for EDisc {
    fn tv(&self) -> Val { match self { EDisc::A => Val::Var(0, vec![]), EDisc::B => Val::Var(1, vec![]), EDisc::C => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDisc::A }, Val::Var(1, i) => { let _ = i; EDisc::B }, Val::Var(2, i) => { let _ = i; EDisc::C }, _ => panic!("shape") } }
}
pub fn d_EDisc() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDisc", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(5)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(6)), explicit_id: false, pat: None, default: false, fields: vec![] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "u16")]
#[repr(u16)]
pub enum EDisc16 {
    A = 258,
    B = 4,
}
impl Conv for EDisc16 {
    fn tv(&self) -> Val { match self { EDisc16::A => Val::Var(0, vec![]), EDisc16::B => Val::Var(1, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDisc16::A }, Val::Var(1, i) => { let _ = i; EDisc16::B }, _ => panic!("shape") } }
}
pub fn d_EDisc16() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDisc16", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(258)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(4)), explicit_id: false, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", id_type = "u32")]
#[repr(u32)]
pub enum EDiscL {
    A = 258,
    B = 4,
}
impl Conv for EDiscL {
    fn tv(&self) -> Val { match self { EDiscL::A => Val::Var(0, vec![]), EDiscL::B => Val::Var(1, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscL::A }, Val::Var(1, i) => { let _ = i; EDiscL::B }, _ => panic!("shape") } }
}
pub fn d_EDiscL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscL", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(258)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(4)), explicit_id: false, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "i16")]
#[repr(i16)]
pub enum EDiscI {
    A = -2,
    B = 100,
}
impl Conv for EDiscI {
    fn tv(&self) -> Val { match self { EDiscI::A => Val::Var(0, vec![]), EDiscI::B => Val::Var(1, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscI::A }, Val::Var(1, i) => { let _ = i; EDiscI::B }, _ => panic!("shape") } }
}
pub fn d_EDiscI() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscI", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 16, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(-2)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(100)), explicit_id: false, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", id_type = "u64")]
#[repr(u64)]
pub enum EDiscU64L {
    A = 1,
    B = 99,
    #[deku(id = 6)]
    C { y: u8 },
    #[deku(id = "7")]
    D,
}
impl Conv for EDiscU64L {
    fn tv(&self) -> Val { match self { EDiscU64L::A => Val::Var(0, vec![]), EDiscU64L::B => Val::Var(1, vec![]), EDiscU64L::C { y } => Val::Var(2, vec![y.tv()]), EDiscU64L::D => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscU64L::A }, Val::Var(1, i) => { let _ = i; EDiscU64L::B }, Val::Var(2, i) => { let _ = i; EDiscU64L::C { y: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; EDiscU64L::D }, _ => panic!("shape") } }
}
pub fn d_EDiscU64L() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscU64L", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 64, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(99)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "u64")]
#[repr(u64)]
pub enum EDiscU64B {
    A = 1,
    B = 99,
    #[deku(id = 6)]
    C { y: u8 },
    #[deku(id = "7")]
    D,
}
impl Conv for EDiscU64B {
    fn tv(&self) -> Val { match self { EDiscU64B::A => Val::Var(0, vec![]), EDiscU64B::B => Val::Var(1, vec![]), EDiscU64B::C { y } => Val::Var(2, vec![y.tv()]), EDiscU64B::D => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscU64B::A }, Val::Var(1, i) => { let _ = i; EDiscU64B::B }, Val::Var(2, i) => { let _ = i; EDiscU64B::C { y: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; EDiscU64B::D }, _ => panic!("shape") } }
}
pub fn d_EDiscU64B() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscU64B", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 64, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(99)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "u64", bits = 5)]
#[repr(u64)]
pub enum EDiscU64Bits {
    #[deku(id = "1")]
    A { #[deku(bits = 3)] y: u8 },
    B = 6,
    #[deku(id = "11")]
    C,
}
impl Conv for EDiscU64Bits {
    fn tv(&self) -> Val { match self { EDiscU64Bits::A { y } => Val::Var(0, vec![y.tv()]), EDiscU64Bits::B => Val::Var(1, vec![]), EDiscU64Bits::C => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscU64Bits::A { y: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EDiscU64Bits::B }, Val::Var(2, i) => { let _ = i; EDiscU64Bits::C }, _ => panic!("shape") } }
}
pub fn d_EDiscU64Bits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscU64Bits", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 64, s: false }, endian: None, order: None, bits: Some(5), bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(6)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(11)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", id_type = "u128")]
#[repr(u128)]
pub enum EDiscU128L {
    A = 1,
    B = 99,
    #[deku(id = "6")]
    C { y: u8 },
    #[deku(id = 7)]
    D,
}
impl Conv for EDiscU128L {
    fn tv(&self) -> Val { match self { EDiscU128L::A => Val::Var(0, vec![]), EDiscU128L::B => Val::Var(1, vec![]), EDiscU128L::C { y } => Val::Var(2, vec![y.tv()]), EDiscU128L::D => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscU128L::A }, Val::Var(1, i) => { let _ = i; EDiscU128L::B }, Val::Var(2, i) => { let _ = i; EDiscU128L::C { y: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; EDiscU128L::D }, _ => panic!("shape") } }
}
pub fn d_EDiscU128L() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscU128L", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 128, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(99)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "u128")]
#[repr(u128)]
pub enum EDiscU128B {
    A = 1,
    B = 99,
    #[deku(id = "6")]
    C { y: u8 },
    #[deku(id = 7)]
    D,
}
impl Conv for EDiscU128B {
    fn tv(&self) -> Val { match self { EDiscU128B::A => Val::Var(0, vec![]), EDiscU128B::B => Val::Var(1, vec![]), EDiscU128B::C { y } => Val::Var(2, vec![y.tv()]), EDiscU128B::D => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscU128B::A }, Val::Var(1, i) => { let _ = i; EDiscU128B::B }, Val::Var(2, i) => { let _ = i; EDiscU128B::C { y: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; EDiscU128B::D }, _ => panic!("shape") } }
}
pub fn d_EDiscU128B() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscU128B", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 128, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(99)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "u128", bits = 5)]
#[repr(u128)]
pub enum EDiscU128Bits {
    #[deku(id = 1)]
    A { #[deku(bits = 3)] y: u8 },
    B = 6,
    #[deku(id = 11)]
    C,
}
impl Conv for EDiscU128Bits {
    fn tv(&self) -> Val { match self { EDiscU128Bits::A { y } => Val::Var(0, vec![y.tv()]), EDiscU128Bits::B => Val::Var(1, vec![]), EDiscU128Bits::C => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscU128Bits::A { y: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EDiscU128Bits::B }, Val::Var(2, i) => { let _ = i; EDiscU128Bits::C }, _ => panic!("shape") } }
}
pub fn d_EDiscU128Bits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscU128Bits", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 128, s: false }, endian: None, order: None, bits: Some(5), bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(6)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(11)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", id_type = "i8")]
#[repr(i8)]
pub enum EDiscI8L {
    A = 1,
    B = -3,
    #[deku(id = "6")]
    C { y: u8 },
    #[deku(id = 7)]
    D,
}
impl Conv for EDiscI8L {
    fn tv(&self) -> Val { match self { EDiscI8L::A => Val::Var(0, vec![]), EDiscI8L::B => Val::Var(1, vec![]), EDiscI8L::C { y } => Val::Var(2, vec![y.tv()]), EDiscI8L::D => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscI8L::A }, Val::Var(1, i) => { let _ = i; EDiscI8L::B }, Val::Var(2, i) => { let _ = i; EDiscI8L::C { y: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; EDiscI8L::D }, _ => panic!("shape") } }
}
pub fn d_EDiscI8L() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscI8L", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(-3)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "i8")]
#[repr(i8)]
pub enum EDiscI8B {
    A = 1,
    B = -3,
    #[deku(id = "6")]
    C { y: u8 },
    #[deku(id = 7)]
    D,
}
impl Conv for EDiscI8B {
    fn tv(&self) -> Val { match self { EDiscI8B::A => Val::Var(0, vec![]), EDiscI8B::B => Val::Var(1, vec![]), EDiscI8B::C { y } => Val::Var(2, vec![y.tv()]), EDiscI8B::D => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscI8B::A }, Val::Var(1, i) => { let _ = i; EDiscI8B::B }, Val::Var(2, i) => { let _ = i; EDiscI8B::C { y: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; EDiscI8B::D }, _ => panic!("shape") } }
}
pub fn d_EDiscI8B() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscI8B", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(-3)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "i8", bits = 5)]
#[repr(i8)]
pub enum EDiscI8Bits {
    #[deku(id = 1)]
    A { #[deku(bits = 3)] y: u8 },
    B = 6,
    #[deku(id = 11)]
    C,
}
impl Conv for EDiscI8Bits {
    fn tv(&self) -> Val { match self { EDiscI8Bits::A { y } => Val::Var(0, vec![y.tv()]), EDiscI8Bits::B => Val::Var(1, vec![]), EDiscI8Bits::C => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscI8Bits::A { y: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EDiscI8Bits::B }, Val::Var(2, i) => { let _ = i; EDiscI8Bits::C }, _ => panic!("shape") } }
}
pub fn d_EDiscI8Bits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscI8Bits", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: true }, endian: None, order: None, bits: Some(5), bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(6)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(11)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", id_type = "i32")]
#[repr(i32)]
pub enum EDiscI32L {
    A = 1,
    B = -3,
    #[deku(id = 6)]
    C { y: u8 },
    #[deku(id = "7")]
    D,
}
impl Conv for EDiscI32L {
    fn tv(&self) -> Val { match self { EDiscI32L::A => Val::Var(0, vec![]), EDiscI32L::B => Val::Var(1, vec![]), EDiscI32L::C { y } => Val::Var(2, vec![y.tv()]), EDiscI32L::D => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscI32L::A }, Val::Var(1, i) => { let _ = i; EDiscI32L::B }, Val::Var(2, i) => { let _ = i; EDiscI32L::C { y: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; EDiscI32L::D }, _ => panic!("shape") } }
}
pub fn d_EDiscI32L() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscI32L", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(-3)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "i32")]
#[repr(i32)]
pub enum EDiscI32B {
    A = 1,
    B = -3,
    #[deku(id = 6)]
    C { y: u8 },
    #[deku(id = "7")]
    D,
}
impl Conv for EDiscI32B {
    fn tv(&self) -> Val { match self { EDiscI32B::A => Val::Var(0, vec![]), EDiscI32B::B => Val::Var(1, vec![]), EDiscI32B::C { y } => Val::Var(2, vec![y.tv()]), EDiscI32B::D => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscI32B::A }, Val::Var(1, i) => { let _ = i; EDiscI32B::B }, Val::Var(2, i) => { let _ = i; EDiscI32B::C { y: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; EDiscI32B::D }, _ => panic!("shape") } }
}
pub fn d_EDiscI32B() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscI32B", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(-3)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "i32", bits = 5)]
#[repr(i32)]
pub enum EDiscI32Bits {
    #[deku(id = "1")]
    A { #[deku(bits = 3)] y: u8 },
    B = 6,
    #[deku(id = "11")]
    C,
}
impl Conv for EDiscI32Bits {
    fn tv(&self) -> Val { match self { EDiscI32Bits::A { y } => Val::Var(0, vec![y.tv()]), EDiscI32Bits::B => Val::Var(1, vec![]), EDiscI32Bits::C => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscI32Bits::A { y: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EDiscI32Bits::B }, Val::Var(2, i) => { let _ = i; EDiscI32Bits::C }, _ => panic!("shape") } }
}
pub fn d_EDiscI32Bits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscI32Bits", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: true }, endian: None, order: None, bits: Some(5), bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(6)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(11)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", id_type = "i64")]
#[repr(i64)]
pub enum EDiscI64L {
    A = 1,
    B = -3,
    #[deku(id = 6)]
    C { y: u8 },
    #[deku(id = "7")]
    D,
}
impl Conv for EDiscI64L {
    fn tv(&self) -> Val { match self { EDiscI64L::A => Val::Var(0, vec![]), EDiscI64L::B => Val::Var(1, vec![]), EDiscI64L::C { y } => Val::Var(2, vec![y.tv()]), EDiscI64L::D => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscI64L::A }, Val::Var(1, i) => { let _ = i; EDiscI64L::B }, Val::Var(2, i) => { let _ = i; EDiscI64L::C { y: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; EDiscI64L::D }, _ => panic!("shape") } }
}
pub fn d_EDiscI64L() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscI64L", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 64, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(-3)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "i64")]
#[repr(i64)]
pub enum EDiscI64B {
    A = 1,
    B = -3,
    #[deku(id = 6)]
    C { y: u8 },
    #[deku(id = "7")]
    D,
}
impl Conv for EDiscI64B {
    fn tv(&self) -> Val { match self { EDiscI64B::A => Val::Var(0, vec![]), EDiscI64B::B => Val::Var(1, vec![]), EDiscI64B::C { y } => Val::Var(2, vec![y.tv()]), EDiscI64B::D => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscI64B::A }, Val::Var(1, i) => { let _ = i; EDiscI64B::B }, Val::Var(2, i) => { let _ = i; EDiscI64B::C { y: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; EDiscI64B::D }, _ => panic!("shape") } }
}
pub fn d_EDiscI64B() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscI64B", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 64, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(-3)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "i64", bits = 5)]
#[repr(i64)]
pub enum EDiscI64Bits {
    #[deku(id = "1")]
    A { #[deku(bits = 3)] y: u8 },
    B = 6,
    #[deku(id = "11")]
    C,
}
impl Conv for EDiscI64Bits {
    fn tv(&self) -> Val { match self { EDiscI64Bits::A { y } => Val::Var(0, vec![y.tv()]), EDiscI64Bits::B => Val::Var(1, vec![]), EDiscI64Bits::C => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscI64Bits::A { y: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EDiscI64Bits::B }, Val::Var(2, i) => { let _ = i; EDiscI64Bits::C }, _ => panic!("shape") } }
}
pub fn d_EDiscI64Bits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscI64Bits", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 64, s: true }, endian: None, order: None, bits: Some(5), bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(6)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(11)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", id_type = "i128")]
#[repr(i128)]
pub enum EDiscI128L {
    A = 1,
    B = -3,
    #[deku(id = "6")]
    C { y: u8 },
    #[deku(id = 7)]
    D,
}
impl Conv for EDiscI128L {
    fn tv(&self) -> Val { match self { EDiscI128L::A => Val::Var(0, vec![]), EDiscI128L::B => Val::Var(1, vec![]), EDiscI128L::C { y } => Val::Var(2, vec![y.tv()]), EDiscI128L::D => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscI128L::A }, Val::Var(1, i) => { let _ = i; EDiscI128L::B }, Val::Var(2, i) => { let _ = i; EDiscI128L::C { y: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; EDiscI128L::D }, _ => panic!("shape") } }
}
pub fn d_EDiscI128L() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscI128L", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 128, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(-3)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "i128")]
#[repr(i128)]
pub enum EDiscI128B {
    A = 1,
    B = -3,
    #[deku(id = "6")]
    C { y: u8 },
    #[deku(id = 7)]
    D,
}
impl Conv for EDiscI128B {
    fn tv(&self) -> Val { match self { EDiscI128B::A => Val::Var(0, vec![]), EDiscI128B::B => Val::Var(1, vec![]), EDiscI128B::C { y } => Val::Var(2, vec![y.tv()]), EDiscI128B::D => Val::Var(3, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscI128B::A }, Val::Var(1, i) => { let _ = i; EDiscI128B::B }, Val::Var(2, i) => { let _ = i; EDiscI128B::C { y: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; EDiscI128B::D }, _ => panic!("shape") } }
}
pub fn d_EDiscI128B() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscI128B", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 128, s: true }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(-3)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "i128", bits = 5)]
#[repr(i128)]
pub enum EDiscI128Bits {
    #[deku(id = 1)]
    A { #[deku(bits = 3)] y: u8 },
    B = 6,
    #[deku(id = 11)]
    C,
}
impl Conv for EDiscI128Bits {
    fn tv(&self) -> Val { match self { EDiscI128Bits::A { y } => Val::Var(0, vec![y.tv()]), EDiscI128Bits::B => Val::Var(1, vec![]), EDiscI128Bits::C => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscI128Bits::A { y: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EDiscI128Bits::B }, Val::Var(2, i) => { let _ = i; EDiscI128Bits::C }, _ => panic!("shape") } }
}
pub fn d_EDiscI128Bits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscI128Bits", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 128, s: true }, endian: None, order: None, bits: Some(5), bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(6)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(11)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "[u8; 2]")]
pub enum EByteStr {
    #[deku(id = b"ab")]
    A { x: u8 },
    #[deku(id = b"ac")]
    B,
    #[deku(id = b"zb")]
    C(#[deku(endian = "big")] u16),
}
impl Conv for EByteStr {
    fn tv(&self) -> Val { match self { EByteStr::A { x } => Val::Var(0, vec![x.tv()]), EByteStr::B => Val::Var(1, vec![]), EByteStr::C(field_0) => Val::Var(2, vec![field_0.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EByteStr::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EByteStr::B }, Val::Var(2, i) => { let _ = i; EByteStr::C(Conv::fv(&i[0])) }, _ => panic!("shape") } }
}
pub fn d_EByteStr() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EByteStr", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2), endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::List(vec![Val::N(97), Val::N(98)])), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::List(vec![Val::N(97), Val::N(99)])), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::List(vec![Val::N(122), Val::N(98)])), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("field_0", Ty::Int { w: 16, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(magic = b"\x7f", id_type = "[u8; 4]")]
pub enum EByteStrD {
    #[deku(id = b"HEAD")]
    A { #[deku(endian = "big")] x: u32 },
    #[deku(id = b"BODY")]
    B,
    #[deku(id = b"....", default)]
    Z { x: u8 },
}
impl Conv for EByteStrD {
    fn tv(&self) -> Val { match self { EByteStrD::A { x } => Val::Var(0, vec![x.tv()]), EByteStrD::B => Val::Var(1, vec![]), EByteStrD::Z { x } => Val::Var(2, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EByteStrD::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EByteStrD::B }, Val::Var(2, i) => { let _ = i; EByteStrD::Z { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_EByteStrD() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EByteStrD", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 4), endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::List(vec![Val::N(72), Val::N(69), Val::N(65), Val::N(68)])), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("x", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "B", id: Some(Val::List(vec![Val::N(66), Val::N(79), Val::N(68), Val::N(89)])), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "Z", id: Some(Val::List(vec![Val::N(46), Val::N(46), Val::N(46), Val::N(46)])), explicit_id: true, pat: None, default: true, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: Some(b"\x7f"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "u8")]
pub enum EConst {
    #[deku(id = "u8::MAX")]
    A { x: u8 },
    #[deku(id = "u8::MIN")]
    B,
    #[deku(id = "0x7")]
    C { #[deku(endian = "big")] x: u16 },
}
impl Conv for EConst {
    fn tv(&self) -> Val { match self { EConst::A { x } => Val::Var(0, vec![x.tv()]), EConst::B => Val::Var(1, vec![]), EConst::C { x } => Val::Var(2, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EConst::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EConst::B }, Val::Var(2, i) => { let _ = i; EConst::C { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_EConst() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EConst", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(255)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(7)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "bool", bits = 1)]
pub enum EBoolBits {
    #[deku(id = false)]
    B,
    #[deku(id = "true")]
    A { #[deku(bits = 7)] x: u8 },
}
impl Conv for EBoolBits {
    fn tv(&self) -> Val { match self { EBoolBits::B => Val::Var(0, vec![]), EBoolBits::A { x } => Val::Var(1, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EBoolBits::B }, Val::Var(1, i) => { let _ = i; EBoolBits::A { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_EBoolBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EBoolBits", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Bool, endian: None, order: None, bits: Some(1), bytes: None }, variants: vec![VariantD { name: "B", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(7)), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
pub enum ETempU {
    #[deku(id = "1")]
    A,
    #[deku(id = 2)]
    B { #[deku(temp, temp_value = "((v.len() as i128)) as u8")] n: u8, #[deku(count = "n")] v: Vec<u8> },
    #[deku(id = "3")]
    C,
}
impl Conv for ETempU {
    fn tv(&self) -> Val { match self { ETempU::A => Val::Var(0, vec![]), ETempU::B { v } => Val::Var(1, vec![v.tv()]), ETempU::C => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; ETempU::A }, Val::Var(1, i) => { let _ = i; ETempU::B { v: Conv::fv(&i[0]) } }, Val::Var(2, i) => { let _ = i; ETempU::C }, _ => panic!("shape") } }
}
pub fn d_ETempU() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ETempU", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { temp_value: Some(b(Bop::And, X::Len(1), l(0xff))), temp: true, hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "C", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(magic = b"\x55\x21")]
pub struct UnitMagic ;
impl Conv for UnitMagic {
    fn tv(&self) -> Val { Val::Rec(vec![]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UnitMagic {  } }
}
pub fn d_UnitMagic() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UnitMagic", kind: Kind::Struct { fields: vec![], seek: None }, endian: None, order: None, magic: Some(b"\x55\x21"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct UsesUnit {
    #[deku(bits = 3)]
    pub a: u8,
    #[deku(pad_bits_before = "2")]
    pub u: UnitMagic,
    #[deku(bits = 3)]
    pub b: u8,
    pub v: [UnitMagic; 2],
    pub c: u16,
}
impl Conv for UsesUnit {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.u.tv(), self.b.tv(), self.v.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UsesUnit { a: Conv::fv(&i[0]), u: Conv::fv(&i[1]), b: Conv::fv(&i[2]), v: Conv::fv(&i[3]), c: Conv::fv(&i[4]) } }
}
pub fn d_UsesUnit() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UsesUnit", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(l(2)), ..FieldD::new("u", Ty::Named(d_UnitMagic)) }, FieldD { bits: Some(l(3)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("v", Ty::Arr(Box::new(Ty::Named(d_UnitMagic)), 2)) }, FieldD { ..FieldD::new("c", Ty::Int { w: 16, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "u8", bits = 3)]
#[repr(u8)]
pub enum EDiscBits {
    A = 1,
    B = 6,
    C = 7,
}
impl Conv for EDiscBits {
    fn tv(&self) -> Val { match self { EDiscBits::A => Val::Var(0, vec![]), EDiscBits::B => Val::Var(1, vec![]), EDiscBits::C => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscBits::A }, Val::Var(1, i) => { let _ = i; EDiscBits::B }, Val::Var(2, i) => { let _ = i; EDiscBits::C }, _ => panic!("shape") } }
}
pub fn d_EDiscBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscBits", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(3), bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(6)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::N(7)), explicit_id: false, pat: None, default: false, fields: vec![] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "u8")]
#[repr(u8)]
pub enum EDiscF {
    A = 1,
    #[deku(id = 6)]
    B { y: u8 },
}
impl Conv for EDiscF {
    fn tv(&self) -> Val { match self { EDiscF::A => Val::Var(0, vec![]), EDiscF::B { y } => Val::Var(1, vec![y.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EDiscF::A }, Val::Var(1, i) => { let _ = i; EDiscF::B { y: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_EDiscF() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EDiscF", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: false, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "[u8; 2]")]
pub enum EArr {
    #[deku(id = "[1, 2]")]
    A { x: u8 },
    #[deku(id = "[1, 3]")]
    B,
    #[deku(id = "[0, 2]")]
    C { y: u16 },
}
impl Conv for EArr {
    fn tv(&self) -> Val { match self { EArr::A { x } => Val::Var(0, vec![x.tv()]), EArr::B => Val::Var(1, vec![]), EArr::C { y } => Val::Var(2, vec![y.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EArr::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EArr::B }, Val::Var(2, i) => { let _ = i; EArr::C { y: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_EArr() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EArr", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 2), endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::List(vec![Val::N(1), Val::N(2)])), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::List(vec![Val::N(1), Val::N(3)])), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "C", id: Some(Val::List(vec![Val::N(0), Val::N(2)])), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("y", Ty::Int { w: 16, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "(u8, u16,)")]
pub enum ETup {
    #[deku(id = "(1, 2)")]
    A { x: u8 },
    #[deku(id = "(1, 0x0300)")]
    B,
}
impl Conv for ETup {
    fn tv(&self) -> Val { match self { ETup::A { x } => Val::Var(0, vec![x.tv()]), ETup::B => Val::Var(1, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; ETup::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; ETup::B }, _ => panic!("shape") } }
}
pub fn d_ETup() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ETup", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 16, s: false }]), endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::Rec(vec![Val::N(1), Val::N(2)])), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::Rec(vec![Val::N(1), Val::N(0x300)])), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "bool")]
pub enum EBool {
    #[deku(id = true)]
    A { x: u8 },
    #[deku(id = "false")]
    B,
}
impl Conv for EBool {
    fn tv(&self) -> Val { match self { EBool::A { x } => Val::Var(0, vec![x.tv()]), EBool::B => Val::Var(1, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EBool::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EBool::B }, _ => panic!("shape") } }
}
pub fn d_EBool() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EBool", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Bool, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(magic = b"\xde\xad", id_type = "u8")]
pub enum EMagic {
    #[deku(id = "1")]
    A { x: u8 },
    #[deku(id = 2)]
    B,
}
impl Conv for EMagic {
    fn tv(&self) -> Val { match self { EMagic::A { x } => Val::Var(0, vec![x.tv()]), EMagic::B => Val::Var(1, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EMagic::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EMagic::B }, _ => panic!("shape") } }
}
pub fn d_EMagic() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EMagic", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: None, order: None, magic: Some(b"\xde\xad"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "u8")]
pub enum EWild {
    #[deku(id = 1)]
    A,
    #[deku(id_pat = "_")]
    W(u8),
}
impl Conv for EWild {
    fn tv(&self) -> Val { match self { EWild::A => Val::Var(0, vec![]), EWild::W(field_0) => Val::Var(1, vec![field_0.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EWild::A }, Val::Var(1, i) => { let _ = i; EWild::W(Conv::fv(&i[0])) }, _ => panic!("shape") } }
}
pub fn d_EWild() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EWild", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "W", id: None, explicit_id: false, pat: Some(vec![(0, 255)]), default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
pub enum EWildF {
    #[deku(id = "1")]
    A { x: u32 },
    #[deku(id_pat = "_")]
    W { i: u8, n: u8, #[deku(count = "n")] v: Vec<u8> },
}
impl Conv for EWildF {
    fn tv(&self) -> Val { match self { EWildF::A { x } => Val::Var(0, vec![x.tv()]), EWildF::W { i, n, v } => Val::Var(1, vec![i.tv(), n.tv(), v.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EWildF::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EWildF::W { i: Conv::fv(&i[0]), n: Conv::fv(&i[1]), v: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_EWildF() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EWildF", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "W", id: None, explicit_id: false, pat: Some(vec![(0, 255)]), default: false, fields: vec![FieldD { ..FieldD::new("i", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "u32")]
pub enum EWildW {
    #[deku(id = "1")]
    A,
    #[deku(id_pat = "_")]
    W { i: u32, x: u8 },
}
impl Conv for EWildW {
    fn tv(&self) -> Val { match self { EWildW::A => Val::Var(0, vec![]), EWildW::W { i, x } => Val::Var(1, vec![i.tv(), x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EWildW::A }, Val::Var(1, i) => { let _ = i; EWildW::W { i: Conv::fv(&i[0]), x: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_EWildW() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EWildW", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 32, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "W", id: None, explicit_id: false, pat: Some(vec![(0, 4294967295)]), default: false, fields: vec![FieldD { ..FieldD::new("i", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "u8")]
pub enum EOver {
    #[deku(id = 1)]
    A,
    #[deku(id_pat = "1..=3")]
    B { i: u8 },
    #[deku(id_pat = "2..=9")]
    C { i: u8, x: u8 },
}
impl Conv for EOver {
    fn tv(&self) -> Val { match self { EOver::A => Val::Var(0, vec![]), EOver::B { i } => Val::Var(1, vec![i.tv()]), EOver::C { i, x } => Val::Var(2, vec![i.tv(), x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EOver::A }, Val::Var(1, i) => { let _ = i; EOver::B { i: Conv::fv(&i[0]) } }, Val::Var(2, i) => { let _ = i; EOver::C { i: Conv::fv(&i[0]), x: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_EOver() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EOver", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "B", id: None, explicit_id: false, pat: Some(vec![(1, 3)]), default: false, fields: vec![FieldD { ..FieldD::new("i", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(2, 9)]), default: false, fields: vec![FieldD { ..FieldD::new("i", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(ctx = "my_id: u8", id = "my_id")]
pub enum ECtx {
    #[deku(id = "1")]
    A { x: u8 },
    #[deku(id = 2)]
    B { #[deku(endian = "big")] x: u16 },
    #[deku(id_pat = "_")]
    C { a: u8, b: u8 },
}
impl Conv for ECtx {
    fn tv(&self) -> Val { match self { ECtx::A { x } => Val::Var(0, vec![x.tv()]), ECtx::B { x } => Val::Var(1, vec![x.tv()]), ECtx::C { a, b } => Val::Var(2, vec![a.tv(), b.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; ECtx::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; ECtx::B { x: Conv::fv(&i[0]) } }, Val::Var(2, i) => { let _ = i; ECtx::C { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_ECtx() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ECtx", kind: Kind::Enum { id: IdSrc::Ctx(X::C(0)), variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(0, 255)]), default: false, fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", ctx = "my_id: u8", ctx_default = "3", id = "my_id")]
pub enum ECtxP {
    #[deku(id = 1)]
    A { x: u8 },
    #[deku(id_pat = "2..=4")]
    B { #[deku(endian = "big")] x: u16, y: u16 },
    #[deku(id_pat = "5")]
    C { #[deku(bits = "2")] n: u8, #[deku(bits = 6)] m: u8 },
    #[deku(id_pat = "6 | 7")]
    D { #[deku(bytes = 3)] x: u32, y: u8 },
    #[deku(id_pat = "_")]
    E { #[deku(pad_bytes_before = "1")] x: u8, y: u8 },
}
impl Conv for ECtxP {
    fn tv(&self) -> Val { match self { ECtxP::A { x } => Val::Var(0, vec![x.tv()]), ECtxP::B { x, y } => Val::Var(1, vec![x.tv(), y.tv()]), ECtxP::C { n, m } => Val::Var(2, vec![n.tv(), m.tv()]), ECtxP::D { x, y } => Val::Var(3, vec![x.tv(), y.tv()]), ECtxP::E { x, y } => Val::Var(4, vec![x.tv(), y.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; ECtxP::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; ECtxP::B { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }, Val::Var(2, i) => { let _ = i; ECtxP::C { n: Conv::fv(&i[0]), m: Conv::fv(&i[1]) } }, Val::Var(3, i) => { let _ = i; ECtxP::D { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }, Val::Var(4, i) => { let _ = i; ECtxP::E { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_ECtxP() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ECtxP", kind: Kind::Enum { id: IdSrc::Ctx(X::C(0)), variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: None, explicit_id: false, pat: Some(vec![(2, 4)]), default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("x", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(5, 5)]), default: false, fields: vec![FieldD { bits: Some(l(2)), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(6)), ..FieldD::new("m", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "D", id: None, explicit_id: false, pat: Some(vec![(6, 7)]), default: false, fields: vec![FieldD { bytes: Some(l(3)), ..FieldD::new("x", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "E", id: None, explicit_id: false, pat: Some(vec![(0, 255)]), default: false, fields: vec![FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: Some(vec![3]) })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", ctx = "my_id: u8", ctx_default = "9", id = "my_id")]
pub enum ECtxQ {
    #[deku(id = 1)]
    A { x: u8 },
    #[deku(id_pat = "_")]
    C { #[deku(bits = "2")] n: u8, #[deku(bits = 6)] m: u8, #[deku(endian = "big")] w: u16 },
}
impl Conv for ECtxQ {
    fn tv(&self) -> Val { match self { ECtxQ::A { x } => Val::Var(0, vec![x.tv()]), ECtxQ::C { n, m, w } => Val::Var(1, vec![n.tv(), m.tv(), w.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; ECtxQ::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; ECtxQ::C { n: Conv::fv(&i[0]), m: Conv::fv(&i[1]), w: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_ECtxQ() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ECtxQ", kind: Kind::Enum { id: IdSrc::Ctx(X::C(0)), variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(0, 255)]), default: false, fields: vec![FieldD { bits: Some(l(2)), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(6)), ..FieldD::new("m", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("w", Ty::Int { w: 16, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: Some(vec![9]) })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct UseCtxP {
    pub k: u8,
    #[deku(ctx = "((*k as i128)) as u8")]
    pub e: ECtxP,
    pub t: u8,
}
impl Conv for UseCtxP {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.e.tv(), self.t.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UseCtxP { k: Conv::fv(&i[0]), e: Conv::fv(&i[1]), t: Conv::fv(&i[2]) } }
}
pub fn d_UseCtxP() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UseCtxP", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 9), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { ctx: vec![b(Bop::And, X::F(0), l(0xff))], ..FieldD::new("e", Ty::Named(d_ECtxP)) }, FieldD { ..FieldD::new("t", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian, my_id: u8", id = "my_id")]
pub enum ECtxE {
    #[deku(id = 1)]
    A(u16),
    #[deku(id = "2")]
    B(u32),
    #[deku(id = 3)]
    C,
}
impl Conv for ECtxE {
    fn tv(&self) -> Val { match self { ECtxE::A(field_0) => Val::Var(0, vec![field_0.tv()]), ECtxE::B(field_0) => Val::Var(1, vec![field_0.tv()]), ECtxE::C => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; ECtxE::A(Conv::fv(&i[0])) }, Val::Var(1, i) => { let _ = i; ECtxE::B(Conv::fv(&i[0])) }, Val::Var(2, i) => { let _ = i; ECtxE::C }, _ => panic!("shape") } }
}
pub fn d_ECtxE() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ECtxE", kind: Kind::Enum { id: IdSrc::Ctx(X::C(1)), variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "C", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct UseCtx {
    pub k: u8,
    #[deku(ctx = "((*k as i128)) as u8")]
    pub e: ECtx,
    pub t: u8,
}
impl Conv for UseCtx {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.e.tv(), self.t.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UseCtx { k: Conv::fv(&i[0]), e: Conv::fv(&i[1]), t: Conv::fv(&i[2]) } }
}
pub fn d_UseCtx() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UseCtx", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { ctx: vec![b(Bop::And, X::F(0), l(0xff))], ..FieldD::new("e", Ty::Named(d_ECtx)) }, FieldD { ..FieldD::new("t", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct UseCtxE {
    pub k: u8,
    #[deku(ctx = "((*k as i128)) as u8")]
    pub e: ECtxE,
    #[deku(endian = "big", ctx = "((*k as i128)) as u8")]
    pub f: ECtxE,
    pub n: u8,
    #[deku(count = "n", ctx = "((*k as i128)) as u8")]
    pub v: Vec<ECtxE>,
}
impl Conv for UseCtxE {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.e.tv(), self.f.tv(), self.n.tv(), self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UseCtxE { k: Conv::fv(&i[0]), e: Conv::fv(&i[1]), f: Conv::fv(&i[2]), n: Conv::fv(&i[3]), v: Conv::fv(&i[4]) } }
}
pub fn d_UseCtxE() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UseCtxE", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(1, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { ctx: vec![b(Bop::And, X::F(0), l(0xff))], ..FieldD::new("e", Ty::Named(d_ECtxE)) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ctx: vec![b(Bop::And, X::F(0), l(0xff))], ..FieldD::new("f", Ty::Named(d_ECtxE)) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ctx: vec![b(Bop::And, X::F(0), l(0xff))], ..FieldD::new("v", Ty::Vec(Box::new(Ty::Named(d_ECtxE)))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(ctx = "my_id: u8", ctx_default = "2", id = "my_id")]
pub enum ECtxDef {
    #[deku(id = 1)]
    A { x: u8 },
    #[deku(id = "2")]
    B { #[deku(endian = "big")] x: u16 },
}
impl Conv for ECtxDef {
    fn tv(&self) -> Val { match self { ECtxDef::A { x } => Val::Var(0, vec![x.tv()]), ECtxDef::B { x } => Val::Var(1, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; ECtxDef::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; ECtxDef::B { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_ECtxDef() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ECtxDef", kind: Kind::Enum { id: IdSrc::Ctx(X::C(0)), variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: Some(vec![2]) })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(ctx = "a: u8, c: u8", ctx_default = "1, 2", id = "a + c")]
pub enum ECtxExpr {
    #[deku(id = "3")]
    A { x: u8 },
    #[deku(id = 4)]
    B { #[deku(endian = "big")] x: u16 },
}
impl Conv for ECtxExpr {
    fn tv(&self) -> Val { match self { ECtxExpr::A { x } => Val::Var(0, vec![x.tv()]), ECtxExpr::B { x } => Val::Var(1, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; ECtxExpr::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; ECtxExpr::B { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_ECtxExpr() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ECtxExpr", kind: Kind::Enum { id: IdSrc::Ctx(b(Bop::Add, X::C(0), X::C(1))), variants: vec![VariantD { name: "A", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(4)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: Some(vec![1, 2]) })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "little", ctx = "a: u8, c: u16", ctx_default = "1, 2", id = "a, c")]
pub enum ECtxT {
    #[deku(id = "(1, 1)")]
    A { x: u8 },
    #[deku(id = "(1, 2)")]
    B { #[deku(endian = "big")] x: u16, y: u8 },
    #[deku(id_pat = "(2, _)")]
    C { x: u16 },
    #[deku(id = "(2, 1)")]
    D,
    #[deku(id_pat = "(3, 1..=2) | (0, 3)")]
    E { #[deku(bits = 3)] n: u8, #[deku(bits = "5")] m: u8, #[deku(bytes = 3)] x: u32 },
    #[deku(id = "(3, 3)")]
    F,
    #[deku(id_pat = "_")]
    W { #[deku(pad_bytes_before = "1")] x: u8 },
}
impl Conv for ECtxT {
    fn tv(&self) -> Val { match self { ECtxT::A { x } => Val::Var(0, vec![x.tv()]), ECtxT::B { x, y } => Val::Var(1, vec![x.tv(), y.tv()]), ECtxT::C { x } => Val::Var(2, vec![x.tv()]), ECtxT::D => Val::Var(3, vec![]), ECtxT::E { n, m, x } => Val::Var(4, vec![n.tv(), m.tv(), x.tv()]), ECtxT::F => Val::Var(5, vec![]), ECtxT::W { x } => Val::Var(6, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; ECtxT::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; ECtxT::B { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }, Val::Var(2, i) => { let _ = i; ECtxT::C { x: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; ECtxT::D }, Val::Var(4, i) => { let _ = i; ECtxT::E { n: Conv::fv(&i[0]), m: Conv::fv(&i[1]), x: Conv::fv(&i[2]) } }, Val::Var(5, i) => { let _ = i; ECtxT::F }, Val::Var(6, i) => { let _ = i; ECtxT::W { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_ECtxT() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ECtxT", kind: Kind::Enum { id: IdSrc::CtxTup(vec![X::C(0), X::C(1)]), variants: vec![VariantD { name: "A", id: Some(Val::Rec(vec![Val::N(1), Val::N(1)])), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::Rec(vec![Val::N(1), Val::N(2)])), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("x", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(8589934592, 8590000127)]), default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "D", id: Some(Val::Rec(vec![Val::N(2), Val::N(1)])), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "E", id: None, explicit_id: false, pat: Some(vec![(12884901889, 12884901890), (3, 3)]), default: false, fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), ..FieldD::new("m", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("x", Ty::Int { w: 32, s: false }) }] }, VariantD { name: "F", id: Some(Val::Rec(vec![Val::N(3), Val::N(3)])), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "W", id: None, explicit_id: false, pat: Some(vec![(0, 1099511627776)]), default: false, fields: vec![FieldD { pad_bytes_before: Some(l(1)), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: Some(vec![1, 2]) })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian, a: u8, c: u16", id = "c, a")]
pub enum ECtxU {
    #[deku(id = "(1, 2)")]
    A(u8),
    #[deku(id = "(2, 1)")]
    B(u16),
    #[deku(id = "(3, 0)")]
    C,
    #[deku(id = "(9, 9)", default)]
    Z(u32),
}
impl Conv for ECtxU {
    fn tv(&self) -> Val { match self { ECtxU::A(field_0) => Val::Var(0, vec![field_0.tv()]), ECtxU::B(field_0) => Val::Var(1, vec![field_0.tv()]), ECtxU::C => Val::Var(2, vec![]), ECtxU::Z(field_0) => Val::Var(3, vec![field_0.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; ECtxU::A(Conv::fv(&i[0])) }, Val::Var(1, i) => { let _ = i; ECtxU::B(Conv::fv(&i[0])) }, Val::Var(2, i) => { let _ = i; ECtxU::C }, Val::Var(3, i) => { let _ = i; ECtxU::Z(Conv::fv(&i[0])) }, _ => panic!("shape") } }
}
pub fn d_ECtxU() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ECtxU", kind: Kind::Enum { id: IdSrc::CtxTup(vec![X::C(2), X::C(1)]), variants: vec![VariantD { name: "A", id: Some(Val::Rec(vec![Val::N(1), Val::N(2)])), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::Rec(vec![Val::N(2), Val::N(1)])), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "C", id: Some(Val::Rec(vec![Val::N(3), Val::N(0)])), explicit_id: true, pat: None, default: false, fields: vec![] }, VariantD { name: "Z", id: Some(Val::Rec(vec![Val::N(9), Val::N(9)])), explicit_id: true, pat: None, default: true, fields: vec![FieldD { ..FieldD::new("field_0", Ty::Int { w: 32, s: false }) }] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(ctx = "a: u8, c: u16", ctx_default = "0, 1", id = "a, c")]
pub enum ECtxV {
    #[deku(id = "(0, 0)")]
    A { x: u8 },
    #[deku(id = "(0, 1)")]
    B { #[deku(endian = "big")] x: u16 },
}
impl Conv for ECtxV {
    fn tv(&self) -> Val { match self { ECtxV::A { x } => Val::Var(0, vec![x.tv()]), ECtxV::B { x } => Val::Var(1, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; ECtxV::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; ECtxV::B { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_ECtxV() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "ECtxV", kind: Kind::Enum { id: IdSrc::CtxTup(vec![X::C(0), X::C(1)]), variants: vec![VariantD { name: "A", id: Some(Val::Rec(vec![Val::N(0), Val::N(0)])), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::Rec(vec![Val::N(0), Val::N(1)])), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: Some(vec![0, 1]) })
}

#[derive(DekuRead, DekuWrite)]
pub struct UseCtxT {
    pub k: u8,
    pub j: u16,
    #[deku(ctx = "((*k as i128)) as u8, ((*j as i128)) as u16")]
    pub e: ECtxT,
    #[deku(ctx = "((*k as i128)) as u8, ((*j as i128)) as u16", cond = "((*k as i128) >= 3)")]
    pub o: Option<ECtxV>,
    pub t: u8,
}
impl Conv for UseCtxT {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.j.tv(), self.e.tv(), self.o.tv(), self.t.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UseCtxT { k: Conv::fv(&i[0]), j: Conv::fv(&i[1]), e: Conv::fv(&i[2]), o: Conv::fv(&i[3]), t: Conv::fv(&i[4]) } }
}
pub fn d_UseCtxT() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UseCtxT", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 4), ..FieldD::new("j", Ty::Int { w: 16, s: false }) }, FieldD { ctx: vec![b(Bop::And, X::F(0), l(0xff)), b(Bop::And, X::F(1), l(0xffff))], ..FieldD::new("e", Ty::Named(d_ECtxT)) }, FieldD { cond: Some(b(Bop::Ge, X::F(0), l(3))), ctx: vec![b(Bop::And, X::F(0), l(0xff)), b(Bop::And, X::F(1), l(0xffff))], ..FieldD::new("o", Ty::Opt(Box::new(Ty::Named(d_ECtxV)))) }, FieldD { ..FieldD::new("t", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct UseCtxU {
    pub k: u8,
    pub j: u16,
    #[deku(endian = "big", ctx = "((*k as i128)) as u8, ((*j as i128)) as u16")]
    pub e: ECtxU,
    pub n: u8,
    #[deku(count = "n", ctx = "((*k as i128)) as u8, ((*j as i128)) as u16")]
    pub v: Vec<ECtxU>,
    pub t: u8,
}
impl Conv for UseCtxU {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.j.tv(), self.e.tv(), self.n.tv(), self.v.tv(), self.t.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UseCtxU { k: Conv::fv(&i[0]), j: Conv::fv(&i[1]), e: Conv::fv(&i[2]), n: Conv::fv(&i[3]), v: Conv::fv(&i[4]), t: Conv::fv(&i[5]) } }
}
pub fn d_UseCtxU() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UseCtxU", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("j", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ctx: vec![b(Bop::And, X::F(0), l(0xff)), b(Bop::And, X::F(1), l(0xffff))], ..FieldD::new("e", Ty::Named(d_ECtxU)) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(3)), ctx: vec![b(Bop::And, X::F(0), l(0xff)), b(Bop::And, X::F(1), l(0xffff))], ..FieldD::new("v", Ty::Vec(Box::new(Ty::Named(d_ECtxU)))) }, FieldD { ..FieldD::new("t", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian", id_type = "u8")]
pub enum EIn {
    #[deku(id = 1)]
    A { x: u16 },
    #[deku(id_pat = "2..=6")]
    B { i: u8, y: u8 },
    #[deku(id = 9)]
    C,
}
impl Conv for EIn {
    fn tv(&self) -> Val { match self { EIn::A { x } => Val::Var(0, vec![x.tv()]), EIn::B { i, y } => Val::Var(1, vec![i.tv(), y.tv()]), EIn::C => Val::Var(2, vec![]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EIn::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EIn::B { i: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }, Val::Var(2, i) => { let _ = i; EIn::C }, _ => panic!("shape") } }
}
pub fn d_EIn() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EIn", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "B", id: None, explicit_id: false, pat: Some(vec![(2, 6)]), default: false, fields: vec![FieldD { ..FieldD::new("i", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "C", id: Some(Val::N(9)), explicit_id: true, pat: None, default: false, fields: vec![] }] }, endian: Some(EndianSpec::Ctx(0)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct HasE {
    pub a: EIn,
    pub n: u8,
    #[deku(count = "n")]
    pub v: Vec<EIn>,
    pub ar: [EIn; 2],
    pub z: u16,
}
impl Conv for HasE {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.n.tv(), self.v.tv(), self.ar.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; HasE { a: Conv::fv(&i[0]), n: Conv::fv(&i[1]), v: Conv::fv(&i[2]), ar: Conv::fv(&i[3]), z: Conv::fv(&i[4]) } }
}
pub fn d_HasE() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "HasE", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Named(d_EIn)) }, FieldD { hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Named(d_EIn)))) }, FieldD { ..FieldD::new("ar", Ty::Arr(Box::new(Ty::Named(d_EIn)), 2)) }, FieldD { ..FieldD::new("z", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct HasEL {
    pub a: EIn,
    #[deku(read_all)]
    pub v: Vec<EIn>,
}
impl Conv for HasEL {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; HasEL { a: Conv::fv(&i[0]), v: Conv::fv(&i[1]) } }
}
pub fn d_HasEL() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "HasEL", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Named(d_EIn)) }, FieldD { lim: Lim::All, ..FieldD::new("v", Ty::Vec(Box::new(Ty::Named(d_EIn)))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
pub enum EUpd {
    #[deku(id = "1")]
    A { #[deku(update = "(v.len() as i128)")] n: u8, #[deku(count = "n")] v: Vec<u8> },
    #[deku(id = 2)]
    B { #[deku(endian = "big", update = "((v.len() as i128) * 2)")] n: u16, #[deku(count = "n")] v: Vec<u8> },
    #[deku(id = "3")]
    C { x: u8 },
}
impl Conv for EUpd {
    fn tv(&self) -> Val { match self { EUpd::A { n, v } => Val::Var(0, vec![n.tv(), v.tv()]), EUpd::B { n, v } => Val::Var(1, vec![n.tv(), v.tv()]), EUpd::C { x } => Val::Var(2, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EUpd::A { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]) } }, Val::Var(1, i) => { let _ = i; EUpd::B { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]) } }, Val::Var(2, i) => { let _ = i; EUpd::C { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_EUpd() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EUpd", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 5), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), update: Some(b(Bop::Mul, X::Len(1), l(2))), hint: Hint::Range(0, 5), ..FieldD::new("n", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "C", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big", id_type = "u8")]
pub enum EMany {
    #[deku(id = 0)]
    V0 { x: u8 },
    #[deku(id = "3")]
    V1 { x: u16 },
    #[deku(id = 6)]
    V2 { x: i32 },
    #[deku(id = "9")]
    V3 { x: u64 },
    #[deku(id = 12)]
    V4 { x: u8 },
    #[deku(id = "15")]
    V5 { x: u16 },
    #[deku(id = 18)]
    V6 { x: i32 },
    #[deku(id = "21")]
    V7 { x: u64 },
    #[deku(id = 24)]
    V8 { x: u8 },
    #[deku(id = "27")]
    V9 { x: u16 },
    #[deku(id = 30)]
    V10 { x: i32 },
    #[deku(id = "33")]
    V11 { x: u64 },
    #[deku(id = 36)]
    V12 { x: u8 },
    #[deku(id = "39")]
    V13 { x: u16 },
    #[deku(id = 42)]
    V14 { x: i32 },
    #[deku(id = "45")]
    V15 { x: u64 },
    #[deku(id = 48)]
    V16 { x: u8 },
    #[deku(id = "51")]
    V17 { x: u16 },
    #[deku(id = 54)]
    V18 { x: i32 },
    #[deku(id = "57")]
    V19 { x: u64 },
    #[deku(id = 60)]
    V20 { x: u8 },
    #[deku(id = "63")]
    V21 { x: u16 },
    #[deku(id = 66)]
    V22 { x: i32 },
    #[deku(id = "69")]
    V23 { x: u64 },
}
impl Conv for EMany {
    fn tv(&self) -> Val { match self { EMany::V0 { x } => Val::Var(0, vec![x.tv()]), EMany::V1 { x } => Val::Var(1, vec![x.tv()]), EMany::V2 { x } => Val::Var(2, vec![x.tv()]), EMany::V3 { x } => Val::Var(3, vec![x.tv()]), EMany::V4 { x } => Val::Var(4, vec![x.tv()]), EMany::V5 { x } => Val::Var(5, vec![x.tv()]), EMany::V6 { x } => Val::Var(6, vec![x.tv()]), EMany::V7 { x } => Val::Var(7, vec![x.tv()]), EMany::V8 { x } => Val::Var(8, vec![x.tv()]), EMany::V9 { x } => Val::Var(9, vec![x.tv()]), EMany::V10 { x } => Val::Var(10, vec![x.tv()]), EMany::V11 { x } => Val::Var(11, vec![x.tv()]), EMany::V12 { x } => Val::Var(12, vec![x.tv()]), EMany::V13 { x } => Val::Var(13, vec![x.tv()]), EMany::V14 { x } => Val::Var(14, vec![x.tv()]), EMany::V15 { x } => Val::Var(15, vec![x.tv()]), EMany::V16 { x } => Val::Var(16, vec![x.tv()]), EMany::V17 { x } => Val::Var(17, vec![x.tv()]), EMany::V18 { x } => Val::Var(18, vec![x.tv()]), EMany::V19 { x } => Val::Var(19, vec![x.tv()]), EMany::V20 { x } => Val::Var(20, vec![x.tv()]), EMany::V21 { x } => Val::Var(21, vec![x.tv()]), EMany::V22 { x } => Val::Var(22, vec![x.tv()]), EMany::V23 { x } => Val::Var(23, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EMany::V0 { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; EMany::V1 { x: Conv::fv(&i[0]) } }, Val::Var(2, i) => { let _ = i; EMany::V2 { x: Conv::fv(&i[0]) } }, Val::Var(3, i) => { let _ = i; EMany::V3 { x: Conv::fv(&i[0]) } }, Val::Var(4, i) => { let _ = i; EMany::V4 { x: Conv::fv(&i[0]) } }, Val::Var(5, i) => { let _ = i; EMany::V5 { x: Conv::fv(&i[0]) } }, Val::Var(6, i) => { let _ = i; EMany::V6 { x: Conv::fv(&i[0]) } }, Val::Var(7, i) => { let _ = i; EMany::V7 { x: Conv::fv(&i[0]) } }, Val::Var(8, i) => { let _ = i; EMany::V8 { x: Conv::fv(&i[0]) } }, Val::Var(9, i) => { let _ = i; EMany::V9 { x: Conv::fv(&i[0]) } }, Val::Var(10, i) => { let _ = i; EMany::V10 { x: Conv::fv(&i[0]) } }, Val::Var(11, i) => { let _ = i; EMany::V11 { x: Conv::fv(&i[0]) } }, Val::Var(12, i) => { let _ = i; EMany::V12 { x: Conv::fv(&i[0]) } }, Val::Var(13, i) => { let _ = i; EMany::V13 { x: Conv::fv(&i[0]) } }, Val::Var(14, i) => { let _ = i; EMany::V14 { x: Conv::fv(&i[0]) } }, Val::Var(15, i) => { let _ = i; EMany::V15 { x: Conv::fv(&i[0]) } }, Val::Var(16, i) => { let _ = i; EMany::V16 { x: Conv::fv(&i[0]) } }, Val::Var(17, i) => { let _ = i; EMany::V17 { x: Conv::fv(&i[0]) } }, Val::Var(18, i) => { let _ = i; EMany::V18 { x: Conv::fv(&i[0]) } }, Val::Var(19, i) => { let _ = i; EMany::V19 { x: Conv::fv(&i[0]) } }, Val::Var(20, i) => { let _ = i; EMany::V20 { x: Conv::fv(&i[0]) } }, Val::Var(21, i) => { let _ = i; EMany::V21 { x: Conv::fv(&i[0]) } }, Val::Var(22, i) => { let _ = i; EMany::V22 { x: Conv::fv(&i[0]) } }, Val::Var(23, i) => { let _ = i; EMany::V23 { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_EMany() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EMany", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "V0", id: Some(Val::N(0)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V1", id: Some(Val::N(3)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V2", id: Some(Val::N(6)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 32, s: true }) }] }, VariantD { name: "V3", id: Some(Val::N(9)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "V4", id: Some(Val::N(12)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V5", id: Some(Val::N(15)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V6", id: Some(Val::N(18)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 32, s: true }) }] }, VariantD { name: "V7", id: Some(Val::N(21)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "V8", id: Some(Val::N(24)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V9", id: Some(Val::N(27)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V10", id: Some(Val::N(30)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 32, s: true }) }] }, VariantD { name: "V11", id: Some(Val::N(33)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "V12", id: Some(Val::N(36)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V13", id: Some(Val::N(39)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V14", id: Some(Val::N(42)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 32, s: true }) }] }, VariantD { name: "V15", id: Some(Val::N(45)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "V16", id: Some(Val::N(48)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V17", id: Some(Val::N(51)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V18", id: Some(Val::N(54)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 32, s: true }) }] }, VariantD { name: "V19", id: Some(Val::N(57)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "V20", id: Some(Val::N(60)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "V21", id: Some(Val::N(63)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "V22", id: Some(Val::N(66)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 32, s: true }) }] }, VariantD { name: "V23", id: Some(Val::N(69)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 64, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

pub fn entries() -> Vec<Entry> {
    let mut v = vec![];
    v.push(Entry { name: "BLeaf", tags: &["endian", "size", "ty_int"], decl: d_BLeaf, ops: ops::<BLeaf>(), deku_id: None, size_bits: Some((<BLeaf as DekuSize>::SIZE_BITS, 24)) });
    v.push(Entry { name: "BBits", tags: &["bits", "size", "ty_int"], decl: d_BBits, ops: ops::<BBits>(), deku_id: None, size_bits: Some((<BBits as DekuSize>::SIZE_BITS, 5)) });
    v.push(Entry { name: "BVar", tags: &["count", "ty_int", "ty_list"], decl: d_BVar, ops: ops::<BVar>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntVec", tags: &["count", "endian", "ty_int", "ty_list"], decl: d_CntVec, ops: ops::<CntVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntNVec", tags: &["count", "endian", "ty_int", "ty_list", "ty_named"], decl: d_CntNVec, ops: ops::<CntNVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntBitsVec", tags: &["bits", "count", "ty_int", "ty_list", "ty_named"], decl: d_CntBitsVec, ops: ops::<CntBitsVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "BytesRVec", tags: &["bytes_read", "endian", "ty_int", "ty_list"], decl: d_BytesRVec, ops: ops::<BytesRVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "BitsRVec", tags: &["bits", "bits_read", "ty_int", "ty_list"], decl: d_BitsRVec, ops: ops::<BitsRVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "UntilVec", tags: &["endian", "ty_int", "ty_list", "until"], decl: d_UntilVec, ops: ops::<UntilVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "UntilNVec", tags: &["endian", "ty_int", "ty_list", "ty_named", "until"], decl: d_UntilNVec, ops: ops::<UntilNVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllVec", tags: &["read_all", "ty_int", "ty_list"], decl: d_AllVec, ops: ops::<AllVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllNVec", tags: &["count", "read_all", "ty_int", "ty_list", "ty_named"], decl: d_AllNVec, ops: ops::<AllNVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllBVec", tags: &["bytes", "endian", "read_all", "ty_int", "ty_list"], decl: d_AllBVec, ops: ops::<AllBVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllB2Vec", tags: &["bytes", "endian", "read_all", "ty_int", "ty_list", "ty_tup"], decl: d_AllB2Vec, ops: ops::<AllB2Vec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllBlVec", tags: &["bits", "bytes", "endian", "read_all", "ty_int", "ty_list"], decl: d_AllBlVec, ops: ops::<AllBlVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllBitsVec", tags: &["bits", "read_all", "ty_int", "ty_list"], decl: d_AllBitsVec, ops: ops::<AllBitsVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllFVec", tags: &["read_all", "ty_float", "ty_list"], decl: d_AllFVec, ops: ops::<AllFVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllAVec", tags: &["endian", "read_all", "ty_arr", "ty_int", "ty_list"], decl: d_AllAVec, ops: ops::<AllAVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "All16Vec", tags: &["endian", "read_all", "ty_int", "ty_list"], decl: d_All16Vec, ops: ops::<All16Vec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntBs", tags: &["count", "endian", "ty_int", "ty_list", "ty_ptr"], decl: d_CntBs, ops: ops::<CntBs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntNBs", tags: &["count", "endian", "ty_int", "ty_list", "ty_named", "ty_ptr"], decl: d_CntNBs, ops: ops::<CntNBs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntBitsBs", tags: &["bits", "count", "ty_int", "ty_list", "ty_named", "ty_ptr"], decl: d_CntBitsBs, ops: ops::<CntBitsBs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "BytesRBs", tags: &["bytes_read", "endian", "ty_int", "ty_list", "ty_ptr"], decl: d_BytesRBs, ops: ops::<BytesRBs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "BitsRBs", tags: &["bits", "bits_read", "ty_int", "ty_list", "ty_ptr"], decl: d_BitsRBs, ops: ops::<BitsRBs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "UntilBs", tags: &["endian", "ty_int", "ty_list", "ty_ptr", "until"], decl: d_UntilBs, ops: ops::<UntilBs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "UntilNBs", tags: &["endian", "ty_int", "ty_list", "ty_named", "ty_ptr", "until"], decl: d_UntilNBs, ops: ops::<UntilNBs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllBs", tags: &["read_all", "ty_int", "ty_list", "ty_ptr"], decl: d_AllBs, ops: ops::<AllBs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllNBs", tags: &["count", "read_all", "ty_int", "ty_list", "ty_named", "ty_ptr"], decl: d_AllNBs, ops: ops::<AllNBs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllBBs", tags: &["bytes", "endian", "read_all", "ty_int", "ty_list", "ty_ptr"], decl: d_AllBBs, ops: ops::<AllBBs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllB2Bs", tags: &["bytes", "endian", "read_all", "ty_int", "ty_list", "ty_ptr", "ty_tup"], decl: d_AllB2Bs, ops: ops::<AllB2Bs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllBlBs", tags: &["bits", "bytes", "endian", "read_all", "ty_int", "ty_list", "ty_ptr"], decl: d_AllBlBs, ops: ops::<AllBlBs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllBitsBs", tags: &["bits", "read_all", "ty_int", "ty_list", "ty_ptr"], decl: d_AllBitsBs, ops: ops::<AllBitsBs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllFBs", tags: &["read_all", "ty_float", "ty_list", "ty_ptr"], decl: d_AllFBs, ops: ops::<AllFBs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllABs", tags: &["endian", "read_all", "ty_arr", "ty_int", "ty_list", "ty_ptr"], decl: d_AllABs, ops: ops::<AllABs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "All16Bs", tags: &["endian", "read_all", "ty_int", "ty_list", "ty_ptr"], decl: d_All16Bs, ops: ops::<All16Bs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntAs", tags: &["count", "endian", "ty_int", "ty_list", "ty_ptr"], decl: d_CntAs, ops: ops::<CntAs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntNAs", tags: &["count", "endian", "ty_int", "ty_list", "ty_named", "ty_ptr"], decl: d_CntNAs, ops: ops::<CntNAs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntBitsAs", tags: &["bits", "count", "ty_int", "ty_list", "ty_named", "ty_ptr"], decl: d_CntBitsAs, ops: ops::<CntBitsAs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "BytesRAs", tags: &["bytes_read", "endian", "ty_int", "ty_list", "ty_ptr"], decl: d_BytesRAs, ops: ops::<BytesRAs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "BitsRAs", tags: &["bits", "bits_read", "ty_int", "ty_list", "ty_ptr"], decl: d_BitsRAs, ops: ops::<BitsRAs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "UntilAs", tags: &["endian", "ty_int", "ty_list", "ty_ptr", "until"], decl: d_UntilAs, ops: ops::<UntilAs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "UntilNAs", tags: &["endian", "ty_int", "ty_list", "ty_named", "ty_ptr", "until"], decl: d_UntilNAs, ops: ops::<UntilNAs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllAs", tags: &["read_all", "ty_int", "ty_list", "ty_ptr"], decl: d_AllAs, ops: ops::<AllAs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllNAs", tags: &["count", "read_all", "ty_int", "ty_list", "ty_named", "ty_ptr"], decl: d_AllNAs, ops: ops::<AllNAs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllBAs", tags: &["bytes", "endian", "read_all", "ty_int", "ty_list", "ty_ptr"], decl: d_AllBAs, ops: ops::<AllBAs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllB2As", tags: &["bytes", "endian", "read_all", "ty_int", "ty_list", "ty_ptr", "ty_tup"], decl: d_AllB2As, ops: ops::<AllB2As>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllBlAs", tags: &["bits", "bytes", "endian", "read_all", "ty_int", "ty_list", "ty_ptr"], decl: d_AllBlAs, ops: ops::<AllBlAs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllBitsAs", tags: &["bits", "read_all", "ty_int", "ty_list", "ty_ptr"], decl: d_AllBitsAs, ops: ops::<AllBitsAs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllFAs", tags: &["read_all", "ty_float", "ty_list", "ty_ptr"], decl: d_AllFAs, ops: ops::<AllFAs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AllAAs", tags: &["endian", "read_all", "ty_arr", "ty_int", "ty_list", "ty_ptr"], decl: d_AllAAs, ops: ops::<AllAAs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "All16As", tags: &["endian", "read_all", "ty_int", "ty_list", "ty_ptr"], decl: d_All16As, ops: ops::<All16As>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "BytesVar", tags: &["bytes_read", "count", "ty_int", "ty_list", "ty_named"], decl: d_BytesVar, ops: ops::<BytesVar>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "BitsElem", tags: &["bits", "bits_read", "ty_int", "ty_list", "ty_named"], decl: d_BitsElem, ops: ops::<BitsElem>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "BytesBig", tags: &["bytes_read", "endian", "ty_int", "ty_list"], decl: d_BytesBig, ops: ops::<BytesBig>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntWide", tags: &["count", "endian", "ty_int", "ty_list"], decl: d_CntWide, ops: ops::<CntWide>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntHuge", tags: &["count", "endian", "ty_int", "ty_list"], decl: d_CntHuge, ops: ops::<CntHuge>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntHuge2", tags: &["count", "endian", "ty_int", "ty_list", "ty_named"], decl: d_CntHuge2, ops: ops::<CntHuge2>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntHuge3", tags: &["count", "endian", "ty_int", "ty_list", "ty_ptr"], decl: d_CntHuge3, ops: ops::<CntHuge3>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntBig128", tags: &["count", "endian", "ty_int", "ty_list"], decl: d_CntBig128, ops: ops::<CntBig128>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntSigned", tags: &["count", "endian", "ty_int", "ty_list"], decl: d_CntSigned, ops: ops::<CntSigned>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "BytesHuge", tags: &["bytes_read", "endian", "ty_int", "ty_list"], decl: d_BytesHuge, ops: ops::<BytesHuge>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "BitsHuge", tags: &["bits_read", "endian", "ty_int", "ty_list"], decl: d_BitsHuge, ops: ops::<BitsHuge>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "MapHuge", tags: &["count", "endian", "ty_int", "ty_list", "unordered"], decl: d_MapHuge, ops: ops::<MapHuge>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SetHuge", tags: &["count", "endian", "ty_int", "ty_list", "unordered"], decl: d_SetHuge, ops: ops::<SetHuge>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "StrHuge", tags: &["bytes", "endian", "ty_cstr", "ty_int"], decl: d_StrHuge, ops: ops::<StrHuge>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "PadHuge", tags: &["endian", "pad", "ty_int"], decl: d_PadHuge, ops: ops::<PadHuge>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntU8Lsb", tags: &["bits", "count", "order", "ty_int", "ty_list"], decl: d_CntU8Lsb, ops: ops::<CntU8Lsb>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntU8End", tags: &["bits", "count", "endian", "ty_int", "ty_list"], decl: d_CntU8End, ops: ops::<CntU8End>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntU8Una", tags: &["bits", "count", "ty_int", "ty_list"], decl: d_CntU8Una, ops: ops::<CntU8Una>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntU8UnaL", tags: &["bits", "count", "order", "ty_int", "ty_list"], decl: d_CntU8UnaL, ops: ops::<CntU8UnaL>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntU8Bytes", tags: &["bytes", "count", "endian", "ty_int", "ty_list"], decl: d_CntU8Bytes, ops: ops::<CntU8Bytes>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntI8", tags: &["bits", "count", "ty_int", "ty_list"], decl: d_CntI8, ops: ops::<CntI8>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntBool", tags: &["bits", "count", "ty_bool", "ty_int", "ty_list"], decl: d_CntBool, ops: ops::<CntBool>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntE", tags: &["count", "endian", "ty_int", "ty_list", "ty_named"], decl: d_CntE, ops: ops::<CntE>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntX", tags: &["count", "ctx", "ty_int", "ty_list", "ty_named", "ty_ptr"], decl: d_CntX, ops: ops::<CntX>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntVV", tags: &["count", "endian", "ty_arr", "ty_int", "ty_list", "ty_tup"], decl: d_CntVV, ops: ops::<CntVV>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntTupU", tags: &["ty_int", "ty_list", "ty_tup", "until"], decl: d_CntTupU, ops: ops::<CntTupU>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntStr", tags: &["count", "ty_cstr", "ty_int", "ty_list"], decl: d_CntStr, ops: ops::<CntStr>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntExpr", tags: &["count", "endian", "ty_int", "ty_list"], decl: d_CntExpr, ops: ops::<CntExpr>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntSub", tags: &["count", "endian", "ty_int", "ty_list"], decl: d_CntSub, ops: ops::<CntSub>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CntLit", tags: &["bits_read", "bytes_read", "count", "endian", "ty_int", "ty_list"], decl: d_CntLit, ops: ops::<CntLit>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "ArrVec", tags: &["count", "endian", "ty_arr", "ty_int", "ty_list"], decl: d_ArrVec, ops: ops::<ArrVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OptVec", tags: &["count", "endian", "ty_int", "ty_list", "ty_opt", "ty_ptr"], decl: d_OptVec, ops: ops::<OptVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SetC", tags: &["count", "endian", "ty_int", "ty_list", "unordered"], decl: d_SetC, ops: ops::<SetC>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SetB", tags: &["bytes_read", "endian", "ty_int", "ty_list", "unordered"], decl: d_SetB, ops: ops::<SetB>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SetBits", tags: &["bits", "bits_read", "ty_int", "ty_list", "unordered"], decl: d_SetBits, ops: ops::<SetBits>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SetU", tags: &["ty_int", "ty_list", "unordered", "until"], decl: d_SetU, ops: ops::<SetU>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SetA", tags: &["endian", "read_all", "ty_int", "ty_list", "unordered"], decl: d_SetA, ops: ops::<SetA>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SetN", tags: &["count", "endian", "ty_int", "ty_list", "ty_named", "unordered"], decl: d_SetN, ops: ops::<SetN>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "MapC", tags: &["count", "endian", "ty_int", "ty_list", "unordered"], decl: d_MapC, ops: ops::<MapC>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "MapB", tags: &["bytes_read", "endian", "ty_int", "ty_list", "unordered"], decl: d_MapB, ops: ops::<MapB>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "MapBits", tags: &["bits", "bits_read", "ty_int", "ty_list", "unordered"], decl: d_MapBits, ops: ops::<MapBits>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "MapU", tags: &["ty_int", "ty_list", "unordered", "until"], decl: d_MapU, ops: ops::<MapU>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "MapA", tags: &["endian", "read_all", "ty_int", "ty_list", "unordered"], decl: d_MapA, ops: ops::<MapA>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "MapN", tags: &["count", "ty_int", "ty_list", "ty_named", "unordered"], decl: d_MapN, ops: ops::<MapN>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "EPlain", tags: &["endian", "enum", "size", "ty_int"], decl: d_EPlain, ops: ops::<EPlain>(), deku_id: Some(deku_id::<EPlain, u8>), size_bits: Some((<EPlain as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "E16L", tags: &["endian", "enum", "id_pat", "size", "ty_int"], decl: d_E16L, ops: ops::<E16L>(), deku_id: Some(deku_id::<E16L, u16>), size_bits: Some((<E16L as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "E32L", tags: &["endian", "enum", "id_pat", "size", "ty_int"], decl: d_E32L, ops: ops::<E32L>(), deku_id: Some(deku_id::<E32L, u32>), size_bits: Some((<E32L as DekuSize>::SIZE_BITS, 48)) });
    v.push(Entry { name: "E64L", tags: &["endian", "enum", "id_pat", "size", "ty_int"], decl: d_E64L, ops: ops::<E64L>(), deku_id: Some(deku_id::<E64L, u64>), size_bits: Some((<E64L as DekuSize>::SIZE_BITS, 80)) });
    v.push(Entry { name: "Ei16L", tags: &["endian", "enum", "id_pat", "size", "ty_int"], decl: d_Ei16L, ops: ops::<Ei16L>(), deku_id: Some(deku_id::<Ei16L, i16>), size_bits: Some((<Ei16L as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "E128L", tags: &["endian", "enum", "id_pat", "size", "ty_int"], decl: d_E128L, ops: ops::<E128L>(), deku_id: Some(deku_id::<E128L, u128>), size_bits: Some((<E128L as DekuSize>::SIZE_BITS, 144)) });
    v.push(Entry { name: "E16B", tags: &["endian", "enum", "id_pat", "size", "ty_int"], decl: d_E16B, ops: ops::<E16B>(), deku_id: Some(deku_id::<E16B, u16>), size_bits: Some((<E16B as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "E32B", tags: &["endian", "enum", "id_pat", "size", "ty_int"], decl: d_E32B, ops: ops::<E32B>(), deku_id: Some(deku_id::<E32B, u32>), size_bits: Some((<E32B as DekuSize>::SIZE_BITS, 48)) });
    v.push(Entry { name: "E64B", tags: &["endian", "enum", "id_pat", "size", "ty_int"], decl: d_E64B, ops: ops::<E64B>(), deku_id: Some(deku_id::<E64B, u64>), size_bits: Some((<E64B as DekuSize>::SIZE_BITS, 80)) });
    v.push(Entry { name: "Ei16B", tags: &["endian", "enum", "id_pat", "size", "ty_int"], decl: d_Ei16B, ops: ops::<Ei16B>(), deku_id: Some(deku_id::<Ei16B, i16>), size_bits: Some((<Ei16B as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "E128B", tags: &["endian", "enum", "id_pat", "size", "ty_int"], decl: d_E128B, ops: ops::<E128B>(), deku_id: Some(deku_id::<E128B, u128>), size_bits: Some((<E128B as DekuSize>::SIZE_BITS, 144)) });
    v.push(Entry { name: "ESigned", tags: &["enum", "id_pat", "size", "ty_int"], decl: d_ESigned, ops: ops::<ESigned>(), deku_id: Some(deku_id::<ESigned, i8>), size_bits: Some((<ESigned as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "EBits", tags: &["bits", "enum", "size", "ty_int"], decl: d_EBits, ops: ops::<EBits>(), deku_id: Some(deku_id::<EBits, u8>), size_bits: Some((<EBits as DekuSize>::SIZE_BITS, 8)) });
    v.push(Entry { name: "EBitsP", tags: &["bits", "enum", "id_pat", "size", "ty_int"], decl: d_EBitsP, ops: ops::<EBitsP>(), deku_id: Some(deku_id::<EBitsP, u8>), size_bits: Some((<EBitsP as DekuSize>::SIZE_BITS, 8)) });
    v.push(Entry { name: "EBitsL", tags: &["bits", "endian", "enum", "id_pat", "order", "size", "ty_int"], decl: d_EBitsL, ops: ops::<EBitsL>(), deku_id: Some(deku_id::<EBitsL, u8>), size_bits: Some((<EBitsL as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "EBitsIO", tags: &["bits", "enum", "order", "size", "ty_int"], decl: d_EBitsIO, ops: ops::<EBitsIO>(), deku_id: Some(deku_id::<EBitsIO, u8>), size_bits: Some((<EBitsIO as DekuSize>::SIZE_BITS, 8)) });
    v.push(Entry { name: "EBytes", tags: &["endian", "enum", "id_pat", "size", "ty_int"], decl: d_EBytes, ops: ops::<EBytes>(), deku_id: Some(deku_id::<EBytes, u32>), size_bits: Some((<EBytes as DekuSize>::SIZE_BITS, 40)) });
    v.push(Entry { name: "EIdEnd", tags: &["endian", "enum", "id_pat", "size", "ty_int"], decl: d_EIdEnd, ops: ops::<EIdEnd>(), deku_id: Some(deku_id::<EIdEnd, u16>), size_bits: Some((<EIdEnd as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "EIdEnd2", tags: &["endian", "enum", "id_pat", "size", "ty_int"], decl: d_EIdEnd2, ops: ops::<EIdEnd2>(), deku_id: Some(deku_id::<EIdEnd2, u16>), size_bits: Some((<EIdEnd2 as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "EDefault", tags: &["default_variant", "endian", "enum", "size", "ty_int"], decl: d_EDefault, ops: ops::<EDefault>(), deku_id: Some(deku_id::<EDefault, u8>), size_bits: Some((<EDefault as DekuSize>::SIZE_BITS, 24)) });
    v.push(Entry { name: "EDefaultU", tags: &["default_variant", "enum", "size", "ty_int"], decl: d_EDefaultU, ops: ops::<EDefaultU>(), deku_id: Some(deku_id::<EDefaultU, u8>), size_bits: Some((<EDefaultU as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "EDisc", tags: &["disc", "enum", "size"], decl: d_EDisc, ops: ops::<EDisc>(), deku_id: Some(deku_id::<EDisc, u8>), size_bits: Some((<EDisc as DekuSize>::SIZE_BITS, 8)) });
    v.push(Entry { name: "EDisc16", tags: &["disc", "endian", "enum", "size"], decl: d_EDisc16, ops: ops::<EDisc16>(), deku_id: Some(deku_id::<EDisc16, u16>), size_bits: Some((<EDisc16 as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "EDiscL", tags: &["disc", "endian", "enum", "size"], decl: d_EDiscL, ops: ops::<EDiscL>(), deku_id: Some(deku_id::<EDiscL, u32>), size_bits: Some((<EDiscL as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "EDiscI", tags: &["disc", "endian", "enum", "size"], decl: d_EDiscI, ops: ops::<EDiscI>(), deku_id: Some(deku_id::<EDiscI, i16>), size_bits: Some((<EDiscI as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "EDiscU64L", tags: &["endian", "enum", "size", "ty_int"], decl: d_EDiscU64L, ops: ops::<EDiscU64L>(), deku_id: Some(deku_id::<EDiscU64L, u64>), size_bits: Some((<EDiscU64L as DekuSize>::SIZE_BITS, 72)) });
    v.push(Entry { name: "EDiscU64B", tags: &["endian", "enum", "size", "ty_int"], decl: d_EDiscU64B, ops: ops::<EDiscU64B>(), deku_id: Some(deku_id::<EDiscU64B, u64>), size_bits: Some((<EDiscU64B as DekuSize>::SIZE_BITS, 72)) });
    v.push(Entry { name: "EDiscU64Bits", tags: &["bits", "endian", "enum", "size", "ty_int"], decl: d_EDiscU64Bits, ops: ops::<EDiscU64Bits>(), deku_id: Some(deku_id::<EDiscU64Bits, u64>), size_bits: Some((<EDiscU64Bits as DekuSize>::SIZE_BITS, 8)) });
    v.push(Entry { name: "EDiscU128L", tags: &["endian", "enum", "size", "ty_int"], decl: d_EDiscU128L, ops: ops::<EDiscU128L>(), deku_id: Some(deku_id::<EDiscU128L, u128>), size_bits: Some((<EDiscU128L as DekuSize>::SIZE_BITS, 136)) });
    v.push(Entry { name: "EDiscU128B", tags: &["endian", "enum", "size", "ty_int"], decl: d_EDiscU128B, ops: ops::<EDiscU128B>(), deku_id: Some(deku_id::<EDiscU128B, u128>), size_bits: Some((<EDiscU128B as DekuSize>::SIZE_BITS, 136)) });
    v.push(Entry { name: "EDiscU128Bits", tags: &["bits", "endian", "enum", "size", "ty_int"], decl: d_EDiscU128Bits, ops: ops::<EDiscU128Bits>(), deku_id: Some(deku_id::<EDiscU128Bits, u128>), size_bits: Some((<EDiscU128Bits as DekuSize>::SIZE_BITS, 8)) });
    v.push(Entry { name: "EDiscI8L", tags: &["endian", "enum", "size", "ty_int"], decl: d_EDiscI8L, ops: ops::<EDiscI8L>(), deku_id: Some(deku_id::<EDiscI8L, i8>), size_bits: Some((<EDiscI8L as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "EDiscI8B", tags: &["endian", "enum", "size", "ty_int"], decl: d_EDiscI8B, ops: ops::<EDiscI8B>(), deku_id: Some(deku_id::<EDiscI8B, i8>), size_bits: Some((<EDiscI8B as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "EDiscI8Bits", tags: &["bits", "endian", "enum", "size", "ty_int"], decl: d_EDiscI8Bits, ops: ops::<EDiscI8Bits>(), deku_id: Some(deku_id::<EDiscI8Bits, i8>), size_bits: Some((<EDiscI8Bits as DekuSize>::SIZE_BITS, 8)) });
    v.push(Entry { name: "EDiscI32L", tags: &["endian", "enum", "size", "ty_int"], decl: d_EDiscI32L, ops: ops::<EDiscI32L>(), deku_id: Some(deku_id::<EDiscI32L, i32>), size_bits: Some((<EDiscI32L as DekuSize>::SIZE_BITS, 40)) });
    v.push(Entry { name: "EDiscI32B", tags: &["endian", "enum", "size", "ty_int"], decl: d_EDiscI32B, ops: ops::<EDiscI32B>(), deku_id: Some(deku_id::<EDiscI32B, i32>), size_bits: Some((<EDiscI32B as DekuSize>::SIZE_BITS, 40)) });
    v.push(Entry { name: "EDiscI32Bits", tags: &["bits", "endian", "enum", "size", "ty_int"], decl: d_EDiscI32Bits, ops: ops::<EDiscI32Bits>(), deku_id: Some(deku_id::<EDiscI32Bits, i32>), size_bits: Some((<EDiscI32Bits as DekuSize>::SIZE_BITS, 8)) });
    v.push(Entry { name: "EDiscI64L", tags: &["endian", "enum", "size", "ty_int"], decl: d_EDiscI64L, ops: ops::<EDiscI64L>(), deku_id: Some(deku_id::<EDiscI64L, i64>), size_bits: Some((<EDiscI64L as DekuSize>::SIZE_BITS, 72)) });
    v.push(Entry { name: "EDiscI64B", tags: &["endian", "enum", "size", "ty_int"], decl: d_EDiscI64B, ops: ops::<EDiscI64B>(), deku_id: Some(deku_id::<EDiscI64B, i64>), size_bits: Some((<EDiscI64B as DekuSize>::SIZE_BITS, 72)) });
    v.push(Entry { name: "EDiscI64Bits", tags: &["bits", "endian", "enum", "size", "ty_int"], decl: d_EDiscI64Bits, ops: ops::<EDiscI64Bits>(), deku_id: Some(deku_id::<EDiscI64Bits, i64>), size_bits: Some((<EDiscI64Bits as DekuSize>::SIZE_BITS, 8)) });
    v.push(Entry { name: "EDiscI128L", tags: &["endian", "enum", "size", "ty_int"], decl: d_EDiscI128L, ops: ops::<EDiscI128L>(), deku_id: Some(deku_id::<EDiscI128L, i128>), size_bits: Some((<EDiscI128L as DekuSize>::SIZE_BITS, 136)) });
    v.push(Entry { name: "EDiscI128B", tags: &["endian", "enum", "size", "ty_int"], decl: d_EDiscI128B, ops: ops::<EDiscI128B>(), deku_id: Some(deku_id::<EDiscI128B, i128>), size_bits: Some((<EDiscI128B as DekuSize>::SIZE_BITS, 136)) });
    v.push(Entry { name: "EDiscI128Bits", tags: &["bits", "endian", "enum", "size", "ty_int"], decl: d_EDiscI128Bits, ops: ops::<EDiscI128Bits>(), deku_id: Some(deku_id::<EDiscI128Bits, i128>), size_bits: Some((<EDiscI128Bits as DekuSize>::SIZE_BITS, 8)) });
    v.push(Entry { name: "EByteStr", tags: &["endian", "enum", "size", "ty_int"], decl: d_EByteStr, ops: ops::<EByteStr>(), deku_id: Some(deku_id::<EByteStr, [u8; 2]>), size_bits: Some((<EByteStr as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "EByteStrD", tags: &["default_variant", "endian", "enum", "magic", "size", "ty_int"], decl: d_EByteStrD, ops: ops::<EByteStrD>(), deku_id: Some(deku_id::<EByteStrD, [u8; 4]>), size_bits: Some((<EByteStrD as DekuSize>::SIZE_BITS, 72)) });
    v.push(Entry { name: "EConst", tags: &["endian", "enum", "size", "ty_int"], decl: d_EConst, ops: ops::<EConst>(), deku_id: Some(deku_id::<EConst, u8>), size_bits: Some((<EConst as DekuSize>::SIZE_BITS, 24)) });
    v.push(Entry { name: "EBoolBits", tags: &["bits", "enum", "size", "ty_int"], decl: d_EBoolBits, ops: ops::<EBoolBits>(), deku_id: Some(deku_id::<EBoolBits, bool>), size_bits: Some((<EBoolBits as DekuSize>::SIZE_BITS, 8)) });
    v.push(Entry { name: "ETempU", tags: &["count", "enum", "temp", "temp_value", "ty_int", "ty_list"], decl: d_ETempU, ops: ops::<ETempU>(), deku_id: Some(deku_id::<ETempU, u8>), size_bits: None });
    v.push(Entry { name: "UnitMagic", tags: &["magic", "size"], decl: d_UnitMagic, ops: ops::<UnitMagic>(), deku_id: None, size_bits: Some((<UnitMagic as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "UsesUnit", tags: &["bits", "magic", "pad", "size", "ty_arr", "ty_int", "ty_named"], decl: d_UsesUnit, ops: ops::<UsesUnit>(), deku_id: None, size_bits: Some((<UsesUnit as DekuSize>::SIZE_BITS, 72)) });
    v.push(Entry { name: "EDiscBits", tags: &["disc", "enum", "size"], decl: d_EDiscBits, ops: ops::<EDiscBits>(), deku_id: Some(deku_id::<EDiscBits, u8>), size_bits: Some((<EDiscBits as DekuSize>::SIZE_BITS, 3)) });
    v.push(Entry { name: "EDiscF", tags: &["disc", "endian", "enum", "size", "ty_int"], decl: d_EDiscF, ops: ops::<EDiscF>(), deku_id: Some(deku_id::<EDiscF, u8>), size_bits: Some((<EDiscF as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "EArr", tags: &["enum", "size", "ty_int"], decl: d_EArr, ops: ops::<EArr>(), deku_id: Some(deku_id::<EArr, [u8; 2]>), size_bits: Some((<EArr as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "ETup", tags: &["endian", "enum", "size", "ty_int"], decl: d_ETup, ops: ops::<ETup>(), deku_id: Some(deku_id::<ETup, (u8, u16,)>), size_bits: Some((<ETup as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "EBool", tags: &["enum", "size", "ty_int"], decl: d_EBool, ops: ops::<EBool>(), deku_id: Some(deku_id::<EBool, bool>), size_bits: Some((<EBool as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "EMagic", tags: &["enum", "magic", "size", "ty_int"], decl: d_EMagic, ops: ops::<EMagic>(), deku_id: Some(deku_id::<EMagic, u8>), size_bits: Some((<EMagic as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "EWild", tags: &["enum", "id_pat", "size", "ty_int"], decl: d_EWild, ops: ops::<EWild>(), deku_id: Some(deku_id::<EWild, u8>), size_bits: Some((<EWild as DekuSize>::SIZE_BITS, 8)) });
    v.push(Entry { name: "EWildF", tags: &["count", "enum", "id_pat", "ty_int", "ty_list"], decl: d_EWildF, ops: ops::<EWildF>(), deku_id: Some(deku_id::<EWildF, u8>), size_bits: None });
    v.push(Entry { name: "EWildW", tags: &["endian", "enum", "id_pat", "size", "ty_int"], decl: d_EWildW, ops: ops::<EWildW>(), deku_id: Some(deku_id::<EWildW, u32>), size_bits: Some((<EWildW as DekuSize>::SIZE_BITS, 40)) });
    v.push(Entry { name: "EOver", tags: &["enum", "id_pat", "size", "ty_int"], decl: d_EOver, ops: ops::<EOver>(), deku_id: Some(deku_id::<EOver, u8>), size_bits: Some((<EOver as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "ECtxP", tags: &["bits", "bytes", "endian", "enum", "id_ctx", "id_pat", "pad", "size", "ty_int"], decl: d_ECtxP, ops: ops::<ECtxP>(), deku_id: Some(deku_id::<ECtxP, u8>), size_bits: Some((<ECtxP as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "ECtxQ", tags: &["bits", "endian", "enum", "id_ctx", "id_pat", "size", "ty_int"], decl: d_ECtxQ, ops: ops::<ECtxQ>(), deku_id: Some(deku_id::<ECtxQ, u8>), size_bits: Some((<ECtxQ as DekuSize>::SIZE_BITS, 24)) });
    v.push(Entry { name: "UseCtxP", tags: &["bits", "bytes", "ctx", "endian", "id_ctx", "id_pat", "pad", "size", "ty_int", "ty_named"], decl: d_UseCtxP, ops: ops::<UseCtxP>(), deku_id: None, size_bits: Some((<UseCtxP as DekuSize>::SIZE_BITS, 48)) });
    v.push(Entry { name: "UseCtx", tags: &["ctx", "endian", "id_ctx", "id_pat", "size", "ty_int", "ty_named"], decl: d_UseCtx, ops: ops::<UseCtx>(), deku_id: None, size_bits: Some((<UseCtx as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "UseCtxE", tags: &["count", "ctx", "endian", "id_ctx", "ty_int", "ty_list", "ty_named"], decl: d_UseCtxE, ops: ops::<UseCtxE>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "ECtxDef", tags: &["endian", "enum", "id_ctx", "size", "ty_int"], decl: d_ECtxDef, ops: ops::<ECtxDef>(), deku_id: Some(deku_id::<ECtxDef, u8>), size_bits: Some((<ECtxDef as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "ECtxExpr", tags: &["endian", "enum", "id_ctx", "size", "ty_int"], decl: d_ECtxExpr, ops: ops::<ECtxExpr>(), deku_id: None, size_bits: Some((<ECtxExpr as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "ECtxT", tags: &["bits", "bytes", "endian", "enum", "id_ctx", "id_pat", "pad", "size", "ty_int"], decl: d_ECtxT, ops: ops::<ECtxT>(), deku_id: Some(deku_id::<ECtxT, (u8, u16)>), size_bits: Some((<ECtxT as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "ECtxV", tags: &["endian", "enum", "id_ctx", "size", "ty_int"], decl: d_ECtxV, ops: ops::<ECtxV>(), deku_id: Some(deku_id::<ECtxV, (u8, u16)>), size_bits: Some((<ECtxV as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "UseCtxT", tags: &["bits", "bytes", "cond", "ctx", "endian", "id_ctx", "id_pat", "pad", "ty_int", "ty_named", "ty_opt"], decl: d_UseCtxT, ops: ops::<UseCtxT>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "UseCtxU", tags: &["count", "ctx", "default_variant", "endian", "id_ctx", "ty_int", "ty_list", "ty_named"], decl: d_UseCtxU, ops: ops::<UseCtxU>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "HasE", tags: &["count", "endian", "id_pat", "ty_arr", "ty_int", "ty_list", "ty_named"], decl: d_HasE, ops: ops::<HasE>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "HasEL", tags: &["endian", "id_pat", "read_all", "ty_int", "ty_list", "ty_named"], decl: d_HasEL, ops: ops::<HasEL>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "EUpd", tags: &["count", "endian", "enum", "ty_int", "ty_list", "update"], decl: d_EUpd, ops: ops::<EUpd>(), deku_id: Some(deku_id::<EUpd, u8>), size_bits: None });
    v.push(Entry { name: "EMany", tags: &["endian", "enum", "size", "ty_int"], decl: d_EMany, ops: ops::<EMany>(), deku_id: Some(deku_id::<EMany, u8>), size_bits: Some((<EMany as DekuSize>::SIZE_BITS, 72)) });
    v
}
