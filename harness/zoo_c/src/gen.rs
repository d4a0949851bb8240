// @generated by gen_zoo.py
#![allow(clippy::all, unused_parens, unused_variables, dead_code, non_camel_case_types, non_snake_case, unused_imports, unused_mut)]
use deku::prelude::*;
use std::sync::OnceLock;
use vcore::custom;
use vcore::model::*;
use vcore::ops::{deku_id, ops, Entry};
use vcore::val::{Conv, Val};

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct CLeaf {
    pub a: u8,
    #[deku(endian = "big")]
    pub b: u16,
}
impl Conv for CLeaf {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CLeaf { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_CLeaf() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CLeaf", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("b", Ty::Int { w: 16, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct Cond {
    pub k: u8,
    #[deku(endian = "big", cond = "((*k as i128) >= 2)")]
    pub a: Option<u16>,
    pub b: u8,
}
impl Conv for Cond {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Cond { k: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_Cond() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Cond", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Ge, X::F(0), l(2))), ..FieldD::new("a", Ty::Opt(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CondD {
    pub k: u8,
    #[deku(cond = "((*k as i128) == 1)", default = "Some((7) as u8)")]
    pub a: Option<u8>,
    #[deku(cond = "((*k as i128) != 1)", default = "(9) as u8")]
    pub b: u8,
    pub c: u8,
}
impl Conv for CondD {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CondD { k: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]) } }
}
pub fn d_CondD() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CondD", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Eq, X::F(0), l(1))), default: Some(Default_::Some(b(Bop::And, l(7), l(0xff)))), ..FieldD::new("a", Ty::Opt(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { cond: Some(b(Bop::Ne, X::F(0), l(1))), default: Some(Default_::Int(b(Bop::And, l(9), l(0xff)))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CondInt {
    pub k: u8,
    #[deku(endian = "little", cond = "((*k as i128) < 2)")]
    pub a: u16,
    pub b: u8,
}
impl Conv for CondInt {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CondInt { k: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_CondInt() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CondInt", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::Lt, X::F(0), l(2))), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CondBits {
    #[deku(bits = "2")]
    pub k: u8,
    #[deku(bits = 6, cond = "((*k as i128) > 1)")]
    pub a: Option<u8>,
    #[deku(bits = 6, cond = "((*k as i128) <= 1)")]
    pub b: Option<u8>,
}
impl Conv for CondBits {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CondBits { k: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_CondBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CondBits", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(2)), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(6)), cond: Some(b(Bop::Gt, X::F(0), l(1))), ..FieldD::new("a", Ty::Opt(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(6)), cond: Some(b(Bop::Le, X::F(0), l(1))), ..FieldD::new("b", Ty::Opt(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CondNest {
    pub k: u8,
    #[deku(cond = "((*k as i128) == 2)")]
    pub a: Option<CLeaf>,
    #[deku(endian = "big", count = "k", cond = "((*k as i128) == 3)")]
    pub v: Option<Vec<u16>>,
    pub b: u8,
}
impl Conv for CondNest {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.a.tv(), self.v.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CondNest { k: Conv::fv(&i[0]), a: Conv::fv(&i[1]), v: Conv::fv(&i[2]), b: Conv::fv(&i[3]) } }
}
pub fn d_CondNest() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CondNest", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Eq, X::F(0), l(2))), ..FieldD::new("a", Ty::Opt(Box::new(Ty::Named(d_CLeaf)))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Eq, X::F(0), l(3))), lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Opt(Box::new(Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CondChain {
    pub f: u8,
    #[deku(cond = "(((*f as i128) & 1) != 0)")]
    pub a: Option<u8>,
    #[deku(endian = "big", cond = "(((*f as i128) & 2) != 0)")]
    pub b: Option<u16>,
    #[deku(endian = "little", cond = "((((*f as i128) & 4) != 0) && (((*f as i128) & 8) == 0))")]
    pub c: Option<u32>,
    #[deku(cond = "((a.is_some() as i128) == 1)")]
    pub d: Option<u8>,
}
impl Conv for CondChain {
    fn tv(&self) -> Val { Val::Rec(vec![self.f.tv(), self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CondChain { f: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]), c: Conv::fv(&i[3]), d: Conv::fv(&i[4]) } }
}
pub fn d_CondChain() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CondChain", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("f", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Ne, b(Bop::And, X::F(0), l(1)), l(0))), ..FieldD::new("a", Ty::Opt(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Ne, b(Bop::And, X::F(0), l(2)), l(0))), ..FieldD::new("b", Ty::Opt(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), cond: Some(b(Bop::LAnd, b(Bop::Ne, b(Bop::And, X::F(0), l(4)), l(0)), b(Bop::Eq, b(Bop::And, X::F(0), l(8)), l(0)))), ..FieldD::new("c", Ty::Opt(Box::new(Ty::Int { w: 32, s: false }))) }, FieldD { cond: Some(b(Bop::Eq, X::IsSome(1), l(1))), ..FieldD::new("d", Ty::Opt(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct SkipA {
    pub a: u8,
    #[deku(skip)]
    pub s: u16,
    pub b: u8,
}
impl Conv for SkipA {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.s.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SkipA { a: Conv::fv(&i[0]), s: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_SkipA() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SkipA", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, ..FieldD::new("s", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct SkipD {
    pub a: u8,
    #[deku(skip, default = "(((*a as i128) + 1)) as u16")]
    pub s: u16,
    pub b: u8,
}
impl Conv for SkipD {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.s.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SkipD { a: Conv::fv(&i[0]), s: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_SkipD() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SkipD", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::F(0), l(1)), l(0xffff)))), ..FieldD::new("s", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct SkipO {
    pub a: u8,
    #[deku(skip, default = "Some((5) as u16)")]
    pub s: Option<u16>,
    #[deku(skip)]
    pub t: Vec<u8>,
    pub b: u8,
}
impl Conv for SkipO {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.s.tv(), self.t.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SkipO { a: Conv::fv(&i[0]), s: Conv::fv(&i[1]), t: Conv::fv(&i[2]), b: Conv::fv(&i[3]) } }
}
pub fn d_SkipO() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SkipO", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Some(b(Bop::And, l(5), l(0xffff)))), ..FieldD::new("s", Ty::Opt(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { skip: Skip::All, ..FieldD::new("t", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SkipC {
    pub a: u8,
    #[deku(skip, cond = "((*a as i128) == 1)", default = "(77) as u8")]
    pub s: u8,
    pub b: u8,
}
impl Conv for SkipC {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.s.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SkipC { a: Conv::fv(&i[0]), s: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_SkipC() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SkipC", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Eq, X::F(0), l(1))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(77), l(0xff)))), ..FieldD::new("s", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SkipR {
    pub a: u8,
    #[deku(skip(read), default = "(3) as u8")]
    pub s: u8,
    pub b: u8,
}
impl Conv for SkipR {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.s.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SkipR { a: Conv::fv(&i[0]), s: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_SkipR() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SkipR", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, l(3), l(0xff)))), ..FieldD::new("s", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SkipW {
    pub a: u8,
    #[deku(skip(write))]
    pub s: u8,
    pub b: u8,
}
impl Conv for SkipW {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.s.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SkipW { a: Conv::fv(&i[0]), s: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_SkipW() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SkipW", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Write, ..FieldD::new("s", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SkipRC {
    pub a: u8,
    #[deku(skip(read), cond = "((*a as i128) == 1)", default = "(3) as u8")]
    pub s: u8,
    pub b: u8,
}
impl Conv for SkipRC {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.s.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SkipRC { a: Conv::fv(&i[0]), s: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_SkipRC() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SkipRC", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Eq, X::F(0), l(1))), skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, l(3), l(0xff)))), ..FieldD::new("s", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SkipWC {
    pub a: u8,
    #[deku(skip(write), cond = "((*a as i128) == 1)")]
    pub s: u8,
    pub b: u8,
}
impl Conv for SkipWC {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.s.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SkipWC { a: Conv::fv(&i[0]), s: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_SkipWC() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SkipWC", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Eq, X::F(0), l(1))), skip: Skip::Write, ..FieldD::new("s", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct SkipBits {
    #[deku(bits = 3)]
    pub a: u8,
    #[deku(bits = "2", skip)]
    pub s: u8,
    #[deku(bits = "5")]
    pub b: u8,
}
impl Conv for SkipBits {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.s.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SkipBits { a: Conv::fv(&i[0]), s: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_SkipBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SkipBits", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), skip: Skip::All, ..FieldD::new("s", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct SkipPad {
    pub a: u8,
    #[deku(pad_bytes_before = "1", pad_bytes_after = "2", skip)]
    pub s: u8,
    pub b: u8,
}
impl Conv for SkipPad {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.s.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SkipPad { a: Conv::fv(&i[0]), s: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_SkipPad() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SkipPad", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), pad_bytes_after: Some(l(2)), skip: Skip::All, ..FieldD::new("s", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct SkipSize {
    #[deku(bits = 3)]
    pub a: u8,
    #[deku(skip)]
    pub s: u32,
    #[deku(skip)]
    pub v: Vec<u16>,
    #[deku(skip, default = "Some((5) as u16)")]
    pub o: Option<u16>,
    #[deku(bits = 13)]
    pub b: u16,
}
impl Conv for SkipSize {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.s.tv(), self.v.tv(), self.o.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SkipSize { a: Conv::fv(&i[0]), s: Conv::fv(&i[1]), v: Conv::fv(&i[2]), o: Conv::fv(&i[3]), b: Conv::fv(&i[4]) } }
}
pub fn d_SkipSize() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SkipSize", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, ..FieldD::new("s", Ty::Int { w: 32, s: false }) }, FieldD { skip: Skip::All, ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { skip: Skip::All, default: Some(Default_::Some(b(Bop::And, l(5), l(0xffff)))), ..FieldD::new("o", Ty::Opt(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(13)), ..FieldD::new("b", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(endian = "big")]
pub struct SkipSizeB {
    pub a: u8,
    #[deku(bytes = 3, skip)]
    pub s: u32,
    #[deku(skip, magic = b"\x07")]
    pub m: u8,
    pub b: u16,
}
impl Conv for SkipSizeB {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.s.tv(), self.m.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SkipSizeB { a: Conv::fv(&i[0]), s: Conv::fv(&i[1]), m: Conv::fv(&i[2]), b: Conv::fv(&i[3]) } }
}
pub fn d_SkipSizeB() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SkipSizeB", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { bytes: Some(l(3)), skip: Skip::All, ..FieldD::new("s", Ty::Int { w: 32, s: false }) }, FieldD { skip: Skip::All, magic: Some(b"\x07"), ..FieldD::new("m", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 16, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "u8")]
pub enum SkipSizeE {
    #[deku(id = 1)]
    A { x: u8, #[deku(skip)] s: u64 },
    #[deku(id = "2")]
    B { #[deku(endian = "big")] x: u16, y: u8, #[deku(skip)] v: Vec<u8> },
}
impl Conv for SkipSizeE {
    fn tv(&self) -> Val { match self { SkipSizeE::A { x, s } => Val::Var(0, vec![x.tv(), s.tv()]), SkipSizeE::B { x, y, v } => Val::Var(1, vec![x.tv(), y.tv(), v.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; SkipSizeE::A { x: Conv::fv(&i[0]), s: Conv::fv(&i[1]) } }, Val::Var(1, i) => { let _ = i; SkipSizeE::B { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]), v: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_SkipSizeE() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SkipSizeE", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, ..FieldD::new("s", Ty::Int { w: 64, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("x", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::All, ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CondPad {
    pub a: u8,
    #[deku(pad_bytes_before = "1", pad_bits_after = "8", cond = "((*a as i128) > 1)")]
    pub s: Option<u8>,
    pub b: u8,
}
impl Conv for CondPad {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.s.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CondPad { a: Conv::fv(&i[0]), s: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_CondPad() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CondPad", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), pad_bits_after: Some(l(8)), cond: Some(b(Bop::Gt, X::F(0), l(1))), ..FieldD::new("s", Ty::Opt(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct Temp {
    #[deku(temp, temp_value = "((v.len() as i128)) as u8")]
    pub n: u8,
    #[deku(count = "n")]
    pub v: Vec<u8>,
}
impl Conv for Temp {
    fn tv(&self) -> Val { Val::Rec(vec![self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Temp { v: Conv::fv(&i[0]) } }
}
pub fn d_Temp() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Temp", kind: Kind::Struct { fields: vec![FieldD { temp_value: Some(b(Bop::And, X::Len(1), l(0xff))), temp: true, hint: Hint::Range(0, 5), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct Temp16 {
    pub a: u8,
    #[deku(temp, temp_value = "(((v.len() as i128) * 2)) as u16", endian = "big")]
    pub n: u16,
    #[deku(endian = "little", bytes_read = "n")]
    pub v: Vec<u16>,
    pub b: u8,
}
impl Conv for Temp16 {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.v.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Temp16 { a: Conv::fv(&i[0]), v: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_Temp16() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Temp16", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), temp_value: Some(b(Bop::And, b(Bop::Mul, X::Len(2), l(2)), l(0xffff))), temp: true, hint: Hint::Range(0, 5), ..FieldD::new("n", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Bytes(X::F(1)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct TempOnly {
    #[deku(temp)]
    pub n: u8,
    #[deku(count = "n")]
    pub v: Vec<u8>,
    pub b: u8,
}
impl Conv for TempOnly {
    fn tv(&self) -> Val { Val::Rec(vec![self.v.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; TempOnly { v: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_TempOnly() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "TempOnly", kind: Kind::Struct { fields: vec![FieldD { temp: true, hint: Hint::Range(0, 5), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct TempBits {
    #[deku(temp, temp_value = "((v.len() as i128)) as u8", bits = 4)]
    pub n: u8,
    #[deku(bits = 4)]
    pub m: u8,
    #[deku(count = "n")]
    pub v: Vec<u8>,
}
impl Conv for TempBits {
    fn tv(&self) -> Val { Val::Rec(vec![self.m.tv(), self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; TempBits { m: Conv::fv(&i[0]), v: Conv::fv(&i[1]) } }
}
pub fn d_TempBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "TempBits", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), temp_value: Some(b(Bop::And, X::Len(2), l(0xff))), temp: true, hint: Hint::Range(0, 5), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("m", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct TempTwo {
    #[deku(temp, temp_value = "((v.len() as i128)) as u8")]
    pub n: u8,
    #[deku(temp, temp_value = "((w.len() as i128)) as u8")]
    pub m: u8,
    #[deku(count = "n")]
    pub v: Vec<u8>,
    #[deku(endian = "big", count = "m")]
    pub w: Vec<u16>,
}
impl Conv for TempTwo {
    fn tv(&self) -> Val { Val::Rec(vec![self.v.tv(), self.w.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; TempTwo { v: Conv::fv(&i[0]), w: Conv::fv(&i[1]) } }
}
pub fn d_TempTwo() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "TempTwo", kind: Kind::Struct { fields: vec![FieldD { temp_value: Some(b(Bop::And, X::Len(2), l(0xff))), temp: true, hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { temp_value: Some(b(Bop::And, X::Len(3), l(0xff))), temp: true, hint: Hint::Range(0, 4), ..FieldD::new("m", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(1)), ..FieldD::new("w", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct TempLsb {
    #[deku(temp, temp_value = "((v.len() as i128)) as u8", bits = 4)]
    pub n: u8,
    #[deku(bits = 4)]
    pub m: u8,
    #[deku(count = "n")]
    pub v: Vec<u8>,
}
impl Conv for TempLsb {
    fn tv(&self) -> Val { Val::Rec(vec![self.m.tv(), self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; TempLsb { m: Conv::fv(&i[0]), v: Conv::fv(&i[1]) } }
}
pub fn d_TempLsb() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "TempLsb", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), temp_value: Some(b(Bop::And, X::Len(2), l(0xff))), temp: true, hint: Hint::Range(0, 5), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("m", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
pub struct TempTup (
    #[deku(temp, temp_value = "((field_1.len() as i128)) as u8")]
    pub u8,
    #[deku(count = "field_0")]
    pub Vec<u8>,
    #[deku(endian = "big")]
    pub u16,
);
impl Conv for TempTup {
    fn tv(&self) -> Val { Val::Rec(vec![self.0.tv(), self.1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; TempTup( Conv::fv(&i[0]), Conv::fv(&i[1]) ) }
}
pub fn d_TempTup() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "TempTup", kind: Kind::Struct { fields: vec![FieldD { temp_value: Some(b(Bop::And, X::Len(1), l(0xff))), temp: true, hint: Hint::Range(0, 5), ..FieldD::new("field_0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("field_1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("field_2", Ty::Int { w: 16, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[deku_derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "u8")]
pub enum TempE {
    #[deku(id = 1)]
    A { #[deku(temp, temp_value = "((v.len() as i128)) as u8")] n: u8, #[deku(count = "n")] v: Vec<u8> },
    #[deku(id = "2")]
    B { x: u16 },
}
impl Conv for TempE {
    fn tv(&self) -> Val { match self { TempE::A { v } => Val::Var(0, vec![v.tv()]), TempE::B { x } => Val::Var(1, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; TempE::A { v: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; TempE::B { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_TempE() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "TempE", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { temp_value: Some(b(Bop::And, X::Len(1), l(0xff))), temp: true, hint: Hint::Range(0, 5), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct Upd {
    #[deku(update = "(self.v.len() as i128)")]
    pub n: u8,
    #[deku(count = "n")]
    pub v: Vec<u8>,
}
impl Conv for Upd {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Upd { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]) } }
}
pub fn d_Upd() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Upd", kind: Kind::Struct { fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 5), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct Upd2 {
    #[deku(endian = "big", update = "(((self.v.len() as i128) * 2) + 1)")]
    pub n: u16,
    #[deku(update = "(self.w.len() as i128)")]
    pub m: u8,
    #[deku(count = "n")]
    pub v: Vec<u8>,
    #[deku(count = "m")]
    pub w: Vec<u16>,
}
impl Conv for Upd2 {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.m.tv(), self.v.tv(), self.w.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Upd2 { n: Conv::fv(&i[0]), m: Conv::fv(&i[1]), v: Conv::fv(&i[2]), w: Conv::fv(&i[3]) } }
}
pub fn d_Upd2() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Upd2", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), update: Some(b(Bop::Add, b(Bop::Mul, X::Len(2), l(2)), l(1))), hint: Hint::Range(0, 5), ..FieldD::new("n", Ty::Int { w: 16, s: false }) }, FieldD { update: Some(X::Len(3)), hint: Hint::Range(0, 5), ..FieldD::new("m", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("w", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct UpdSum {
    pub a: u8,
    pub b: u8,
    #[deku(update = "((self.a as i128) + (self.b as i128))")]
    pub s: u8,
}
impl Conv for UpdSum {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.s.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UpdSum { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), s: Conv::fv(&i[2]) } }
}
pub fn d_UpdSum() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UpdSum", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(0), X::F(1))), ..FieldD::new("s", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct UpdNeg {
    pub a: u8,
    #[deku(update = "((self.a as i128) - 100)")]
    pub s: i8,
}
impl Conv for UpdNeg {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.s.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UpdNeg { a: Conv::fv(&i[0]), s: Conv::fv(&i[1]) } }
}
pub fn d_UpdNeg() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UpdNeg", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Sub, X::F(0), l(100))), ..FieldD::new("s", Ty::Int { w: 8, s: true }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct UpdTup (
    #[deku(update = "(self.1.len() as i128)")]
    pub u8,
    #[deku(count = "field_0")]
    pub Vec<u8>,
);
impl Conv for UpdTup {
    fn tv(&self) -> Val { Val::Rec(vec![self.0.tv(), self.1.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UpdTup( Conv::fv(&i[0]), Conv::fv(&i[1]) ) }
}
pub fn d_UpdTup() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UpdTup", kind: Kind::Struct { fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 5), ..FieldD::new("field_0", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("field_1", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct UpdBits {
    #[deku(bits = 4, update = "(self.v.len() as i128)")]
    pub n: u8,
    #[deku(bits = 4)]
    pub x: u8,
    #[deku(count = "n")]
    pub v: Vec<u8>,
}
impl Conv for UpdBits {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.x.tv(), self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UpdBits { n: Conv::fv(&i[0]), x: Conv::fv(&i[1]), v: Conv::fv(&i[2]) } }
}
pub fn d_UpdBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UpdBits", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), update: Some(X::Len(2)), hint: Hint::Range(0, 5), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct UpdChain {
    #[deku(update = "(self.v.len() as i128)")]
    pub a: u8,
    #[deku(update = "((self.a as i128) * 3)")]
    pub b: u16,
    #[deku(update = "((self.b as i128) % 200)")]
    pub c: u8,
    #[deku(count = "((*a as i128) % 6)")]
    pub v: Vec<u8>,
}
impl Conv for UpdChain {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UpdChain { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), v: Conv::fv(&i[3]) } }
}
pub fn d_UpdChain() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UpdChain", kind: Kind::Struct { fields: vec![FieldD { update: Some(X::Len(3)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Mul, X::F(0), l(3))), ..FieldD::new("b", Ty::Int { w: 16, s: false }) }, FieldD { update: Some(b(Bop::Rem, X::F(1), l(200))), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Rem, X::F(0), l(6))), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big", id_type = "u8")]
pub enum EUpdChain {
    #[deku(id = 1)]
    A { #[deku(update = "(v.len() as i128)")] a: u8, #[deku(update = "((*a as i128) * 3)")] b: u16, #[deku(update = "((*b as i128) % 200)")] c: u8, #[deku(count = "((*a as i128) % 6)")] v: Vec<u8> },
    #[deku(id = "2")]
    B { a: u8, #[deku(update = "(*a as i128)")] b: u8, #[deku(update = "(*b as i128)")] c: u8, #[deku(update = "((*c as i128) & 3)")] d: u8 },
    #[deku(id_pat = "_")]
    C { i: u8, #[deku(update = "((*y as i128) & 7)")] x: u8, #[deku(update = "((*x as i128) + 1)")] y: u8 },
}
impl Conv for EUpdChain {
    fn tv(&self) -> Val { match self { EUpdChain::A { a, b, c, v } => Val::Var(0, vec![a.tv(), b.tv(), c.tv(), v.tv()]), EUpdChain::B { a, b, c, d } => Val::Var(1, vec![a.tv(), b.tv(), c.tv(), d.tv()]), EUpdChain::C { i, x, y } => Val::Var(2, vec![i.tv(), x.tv(), y.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; EUpdChain::A { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), v: Conv::fv(&i[3]) } }, Val::Var(1, i) => { let _ = i; EUpdChain::B { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]) } }, Val::Var(2, i) => { let _ = i; EUpdChain::C { i: Conv::fv(&i[0]), x: Conv::fv(&i[1]), y: Conv::fv(&i[2]) } }, _ => panic!("shape") } }
}
pub fn d_EUpdChain() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "EUpdChain", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { update: Some(X::Len(3)), hint: Hint::Range(0, 5), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Mul, X::F(0), l(3))), ..FieldD::new("b", Ty::Int { w: 16, s: false }) }, FieldD { update: Some(b(Bop::Rem, X::F(1), l(200))), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Rem, X::F(0), l(6))), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(X::F(0)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(X::F(1)), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::And, X::F(2), l(3))), ..FieldD::new("d", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "C", id: None, explicit_id: false, pat: Some(vec![(0, 255)]), default: false, fields: vec![FieldD { ..FieldD::new("i", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::And, X::F(2), l(7))), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { update: Some(b(Bop::Add, X::F(1), l(1))), ..FieldD::new("y", Ty::Int { w: 8, s: false }) }] }] }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct UpdSkip {
    #[deku(update = "(self.v.len() as i128)")]
    pub n: u8,
    #[deku(count = "n")]
    pub v: Vec<u8>,
    #[deku(skip, default = "(1) as u8", update = "(self.v.len() as i128)")]
    pub s: u8,
}
impl Conv for UpdSkip {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv(), self.s.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; UpdSkip { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]), s: Conv::fv(&i[2]) } }
}
pub fn d_UpdSkip() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "UpdSkip", kind: Kind::Struct { fields: vec![FieldD { update: Some(X::Len(1)), hint: Hint::Range(0, 5), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { update: Some(X::Len(1)), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(1), l(0xff)))), ..FieldD::new("s", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct Assert {
    #[deku(assert = "((*a as i128) > 3)")]
    pub a: u8,
    #[deku(endian = "big", assert = "((*b as i128) < ((*a as i128) * 10))")]
    pub b: u16,
    pub c: u8,
}
impl Conv for Assert {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Assert { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_Assert() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Assert", kind: Kind::Struct { fields: vec![FieldD { assert: Some(b(Bop::Gt, X::F(0), l(3))), hint: Hint::Range(4, 200), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), assert: Some(b(Bop::Lt, X::F(1), b(Bop::Mul, X::F(0), l(10)))), hint: Hint::Range(0, 39), ..FieldD::new("b", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct AssertEq {
    #[deku(assert_eq = "(7) as u8")]
    pub a: u8,
    pub b: u8,
    #[deku(bits = 4, assert_eq = "(9) as u8")]
    pub c: u8,
    #[deku(bits = 4)]
    pub d: u8,
}
impl Conv for AssertEq {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AssertEq { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]) } }
}
pub fn d_AssertEq() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AssertEq", kind: Kind::Struct { fields: vec![FieldD { assert_eq: Some(b(Bop::And, l(7), l(0xff))), hint: Hint::Range(7, 7), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), assert_eq: Some(b(Bop::And, l(9), l(0xff))), hint: Hint::Range(9, 9), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("d", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct AssertEqF {
    pub a: u8,
    #[deku(assert_eq = "((*a as i128)) as u8")]
    pub b: u8,
    pub c: u8,
}
impl Conv for AssertEqF {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AssertEqF { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_AssertEqF() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AssertEqF", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(3, 5), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, X::F(0), l(0xff))), hint: Hint::Range(3, 5), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AssertVec {
    pub n: u8,
    #[deku(count = "n", assert = "((v.len() as i128) > 0)")]
    pub v: Vec<u8>,
    pub b: u8,
}
impl Conv for AssertVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AssertVec { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_AssertVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AssertVec", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(1, 5), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Gt, X::Len(1), l(0))), lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AssertC {
    pub k: u8,
    #[deku(cond = "((*k as i128) == 1)", default = "(4) as u8", assert = "((*a as i128) > 3)")]
    pub a: u8,
    pub b: u8,
}
impl Conv for AssertC {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AssertC { k: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_AssertC() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AssertC", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Eq, X::F(0), l(1))), assert: Some(b(Bop::Gt, X::F(1), l(3))), default: Some(Default_::Int(b(Bop::And, l(4), l(0xff)))), hint: Hint::Range(4, 9), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "u8")]
pub enum AssertE {
    #[deku(id = 1)]
    A { #[deku(assert = "((*x as i128) < 10)")] x: u8 },
    #[deku(id_pat = "2..=9")]
    B { i: u8, #[deku(assert_eq = "(3) as u8")] x: u8 },
}
impl Conv for AssertE {
    fn tv(&self) -> Val { match self { AssertE::A { x } => Val::Var(0, vec![x.tv()]), AssertE::B { i, x } => Val::Var(1, vec![i.tv(), x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; AssertE::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; AssertE::B { i: Conv::fv(&i[0]), x: Conv::fv(&i[1]) } }, _ => panic!("shape") } }
}
pub fn d_AssertE() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AssertE", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { assert: Some(b(Bop::Lt, X::F(0), l(10))), hint: Hint::Range(0, 9), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: None, explicit_id: false, pat: Some(vec![(2, 9)]), default: false, fields: vec![FieldD { ..FieldD::new("i", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, l(3), l(0xff))), hint: Hint::Range(3, 3), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(magic = b"\x64\x65\x6b\x75")]
pub struct Magic {
    pub a: u8,
    #[deku(endian = "big")]
    pub b: u16,
}
impl Conv for Magic {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Magic { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_Magic() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Magic", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("b", Ty::Int { w: 16, s: false }) }], seek: None }, endian: None, order: None, magic: Some(b"\x64\x65\x6b\x75"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(magic = b"\x00")]
pub struct MagicF {
    pub a: u8,
    #[deku(endian = "big", magic = b"\x01\x02\x03")]
    pub b: u16,
    #[deku(magic = b"\xff")]
    pub c: u8,
    pub d: u8,
}
impl Conv for MagicF {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; MagicF { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]) } }
}
pub fn d_MagicF() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MagicF", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), magic: Some(b"\x01\x02\x03"), ..FieldD::new("b", Ty::Int { w: 16, s: false }) }, FieldD { magic: Some(b"\xff"), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("d", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: Some(b"\x00"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct MagicB {
    #[deku(bits = 4)]
    pub p: u8,
    #[deku(bits = 4, magic = b"\xa5\x5a")]
    pub a: u8,
}
impl Conv for MagicB {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; MagicB { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]) } }
}
pub fn d_MagicB() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MagicB", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), magic: Some(b"\xa5\x5a"), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(magic = b"\x12\x34", bit_order = "lsb")]
pub struct MagicLsb {
    pub p: u8,
    #[deku(bits = 4, magic = b"\xa5\x5a")]
    pub a: u8,
    #[deku(bits = 4)]
    pub b: u8,
}
impl Conv for MagicLsb {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; MagicLsb { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_MagicLsb() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MagicLsb", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), magic: Some(b"\xa5\x5a"), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: Some(b"\x12\x34"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct MagicC {
    pub k: u8,
    #[deku(cond = "((*k as i128) > 1)", magic = b"\x7f")]
    pub a: Option<u8>,
    pub b: u8,
}
impl Conv for MagicC {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; MagicC { k: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_MagicC() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MagicC", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Gt, X::F(0), l(1))), magic: Some(b"\x7f"), ..FieldD::new("a", Ty::Opt(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(magic = b"\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f\x20\x21\x22\x23\x24\x25\x26\x27")]
pub struct MagicLong {
    pub a: u8,
}
impl Conv for MagicLong {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; MagicLong { a: Conv::fv(&i[0]) } }
}
pub fn d_MagicLong() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MagicLong", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: Some(b"\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f\x20\x21\x22\x23\x24\x25\x26\x27"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(magic = b"\x42\x43")]
pub struct MagicIn {
    pub a: u8,
}
impl Conv for MagicIn {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; MagicIn { a: Conv::fv(&i[0]) } }
}
pub fn d_MagicIn() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MagicIn", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: Some(b"\x42\x43"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct MagicV {
    pub n: u8,
    #[deku(count = "n")]
    pub v: Vec<MagicIn>,
    #[deku(cond = "((*n as i128) == 2)")]
    pub o: Option<MagicIn>,
    pub z: u8,
}
impl Conv for MagicV {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv(), self.o.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; MagicV { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]), o: Conv::fv(&i[2]), z: Conv::fv(&i[3]) } }
}
pub fn d_MagicV() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MagicV", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Named(d_MagicIn)))) }, FieldD { cond: Some(b(Bop::Eq, X::F(0), l(2))), ..FieldD::new("o", Ty::Opt(Box::new(Ty::Named(d_MagicIn)))) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(magic = b"\xca\xfe", id_type = "u8")]
pub enum MagicE {
    #[deku(id = "1")]
    A { #[deku(magic = b"\x01\x01")] x: u8 },
    #[deku(id = 2)]
    B { x: u8 },
}
impl Conv for MagicE {
    fn tv(&self) -> Val { match self { MagicE::A { x } => Val::Var(0, vec![x.tv()]), MagicE::B { x } => Val::Var(1, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; MagicE::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; MagicE::B { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_MagicE() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MagicE", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { magic: Some(b"\x01\x01"), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: Some(b"\xca\xfe"), ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct Pads {
    #[deku(bits = 4, pad_bits_before = "2", pad_bits_after = "2")]
    pub a: u8,
    #[deku(pad_bytes_before = "2", pad_bytes_after = "1")]
    pub b: u8,
    #[deku(bits = "5", pad_bits_before = "3", pad_bytes_before = "1")]
    pub c: u8,
}
impl Conv for Pads {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Pads { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_Pads() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Pads", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), pad_bits_before: Some(l(2)), pad_bits_after: Some(l(2)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(2)), pad_bytes_after: Some(l(1)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), pad_bits_before: Some(l(3)), pad_bytes_before: Some(l(1)), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(bit_order = "lsb")]
pub struct PadsLsb {
    #[deku(bits = 4, pad_bits_before = "2", pad_bits_after = "2")]
    pub a: u8,
    #[deku(pad_bytes_before = "2", pad_bytes_after = "1")]
    pub b: u8,
    #[deku(bits = "5", pad_bits_before = "3", pad_bytes_before = "1")]
    pub c: u8,
}
impl Conv for PadsLsb {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; PadsLsb { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_PadsLsb() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "PadsLsb", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), pad_bits_before: Some(l(2)), pad_bits_after: Some(l(2)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(2)), pad_bytes_after: Some(l(1)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), pad_bits_before: Some(l(3)), pad_bytes_before: Some(l(1)), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct PadsFLsb {
    #[deku(bit_order = "lsb", bits = 3, pad_bits_after = "2")]
    pub a: u8,
    #[deku(bit_order = "lsb", bits = "2", pad_bits_before = "4")]
    pub b: u8,
    #[deku(bit_order = "lsb", bits = 1, pad_bits_before = "1", pad_bits_after = "2")]
    pub c: u8,
    #[deku(bit_order = "lsb", bits = 1)]
    pub d: u8,
    pub e: u16,
}
impl Conv for PadsFLsb {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; PadsFLsb { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]), e: Conv::fv(&i[4]) } }
}
pub fn d_PadsFLsb() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "PadsFLsb", kind: Kind::Struct { fields: vec![FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(3)), pad_bits_after: Some(l(2)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(2)), pad_bits_before: Some(l(4)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(1)), pad_bits_before: Some(l(1)), pad_bits_after: Some(l(2)), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(1)), ..FieldD::new("d", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("e", Ty::Int { w: 16, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(bit_order = "lsb")]
pub struct PadsFMsb {
    #[deku(bit_order = "msb", bits = 3, pad_bits_after = "2")]
    pub a: u8,
    #[deku(bit_order = "msb", bits = "2", pad_bits_before = "4")]
    pub b: u8,
    #[deku(bit_order = "msb", bits = "5")]
    pub c: u8,
    #[deku(bits = 4)]
    pub e: u8,
    #[deku(bits = "2", pad_bits_before = "2")]
    pub f: u8,
}
impl Conv for PadsFMsb {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.e.tv(), self.f.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; PadsFMsb { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), e: Conv::fv(&i[3]), f: Conv::fv(&i[4]) } }
}
pub fn d_PadsFMsb() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "PadsFMsb", kind: Kind::Struct { fields: vec![FieldD { order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(3)), pad_bits_after: Some(l(2)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(2)), pad_bits_before: Some(l(4)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { order: Some(OrderSpec::Lit(O::Msb)), bits: Some(l(5)), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("e", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), pad_bits_before: Some(l(2)), ..FieldD::new("f", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: Some(OrderSpec::Lit(O::Lsb)), magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct PadX {
    pub n: u8,
    #[deku(endian = "big", pad_bytes_before = "(*n as i128)", pad_bits_after = "((*n as i128) * 4)")]
    pub a: u16,
    pub b: u8,
}
impl Conv for PadX {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; PadX { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_PadX() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "PadX", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bytes_before: Some(X::F(0)), pad_bits_after: Some(b(Bop::Mul, X::F(0), l(4))), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct PadNeg {
    pub n: u8,
    #[deku(pad_bytes_before = "((*n as i128) - 4)")]
    pub a: u8,
    #[deku(pad_bits_before = "(((*n as i128) - 4) * 8)")]
    pub b: u8,
}
impl Conv for PadNeg {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; PadNeg { n: Conv::fv(&i[0]), a: Conv::fv(&i[1]), b: Conv::fv(&i[2]) } }
}
pub fn d_PadNeg() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "PadNeg", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(4, 9), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(b(Bop::Sub, X::F(0), l(4))), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_before: Some(b(Bop::Mul, b(Bop::Sub, X::F(0), l(4)), l(8))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct PadAlign {
    pub n: u8,
    #[deku(count = "n", pad_bytes_after = "((4 - ((*n as i128) % 4)) % 4)")]
    pub v: Vec<u8>,
    #[deku(endian = "big")]
    pub t: u16,
}
impl Conv for PadAlign {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv(), self.t.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; PadAlign { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]), t: Conv::fv(&i[2]) } }
}
pub fn d_PadAlign() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "PadAlign", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_after: Some(b(Bop::Rem, b(Bop::Sub, l(4), b(Bop::Rem, X::F(0), l(4))), l(4))), lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("t", Ty::Int { w: 16, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct PadBig {
    #[deku(pad_bytes_before = "33")]
    pub a: u8,
    #[deku(pad_bits_after = "9", pad_bytes_after = "64")]
    pub b: u8,
    #[deku(bits = 7)]
    pub c: u8,
}
impl Conv for PadBig {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; PadBig { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_PadBig() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "PadBig", kind: Kind::Struct { fields: vec![FieldD { pad_bytes_before: Some(l(33)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { pad_bits_after: Some(l(9)), pad_bytes_after: Some(l(64)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(7)), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct PadEnd {
    #[deku(pad_bytes_after = "3")]
    pub a: u8,
}
impl Conv for PadEnd {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; PadEnd { a: Conv::fv(&i[0]) } }
}
pub fn d_PadEnd() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "PadEnd", kind: Kind::Struct { fields: vec![FieldD { pad_bytes_after: Some(l(3)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "u8")]
pub enum PadVar {
    #[deku(id = "1")]
    A { #[deku(pad_bytes_before = "2")] x: u8 },
    #[deku(id = 2)]
    B { #[deku(endian = "big", pad_bits_before = "8")] x: u16 },
}
impl Conv for PadVar {
    fn tv(&self) -> Val { match self { PadVar::A { x } => Val::Var(0, vec![x.tv()]), PadVar::B { x } => Val::Var(1, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; PadVar::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; PadVar::B { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_PadVar() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "PadVar", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { pad_bytes_before: Some(l(2)), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), pad_bits_before: Some(l(8)), ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct Offs {
    pub a: u8,
    #[deku(reader = "custom::rd_at(deku::reader, deku::bit_offset, deku::byte_offset)", writer = "custom::wr_at(deku::writer, *b, deku::bit_offset, deku::byte_offset)")]
    pub b: u32,
    #[deku(endian = "big")]
    pub c: u16,
    #[deku(reader = "custom::rd_at(deku::reader, deku::bit_offset, deku::byte_offset)", writer = "custom::wr_at(deku::writer, *d, deku::bit_offset, deku::byte_offset)")]
    pub d: u32,
}
impl Conv for Offs {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Offs { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]) } }
}
pub fn d_Offs() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Offs", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { reader: Some(custom::m_rd_at), writer: Some(custom::m_wr_at), ..FieldD::new("b", Ty::Int { w: 32, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("c", Ty::Int { w: 16, s: false }) }, FieldD { reader: Some(custom::m_rd_at), writer: Some(custom::m_wr_at), ..FieldD::new("d", Ty::Int { w: 32, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffCount {
    #[deku(endian = "big")]
    pub a: u16,
    #[deku(count = "((deku::byte_offset as i128) + 1)")]
    pub v: Vec<u8>,
    #[deku(count = "((deku::bit_offset as i128) / 8)")]
    pub w: Vec<u8>,
    #[deku(cond = "((deku::byte_offset as i128) == 8)", default = "(1) as u8")]
    pub x: u8,
}
impl Conv for OffCount {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.v.tv(), self.w.tv(), self.x.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffCount { a: Conv::fv(&i[0]), v: Conv::fv(&i[1]), w: Conv::fv(&i[2]), x: Conv::fv(&i[3]) } }
}
pub fn d_OffCount() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffCount", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Add, X::ByteOff, l(1))), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { lim: Lim::Count(b(Bop::Div, X::BitOff, l(8))), ..FieldD::new("w", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { cond: Some(b(Bop::Eq, X::ByteOff, l(8))), default: Some(Default_::Int(b(Bop::And, l(1), l(0xff)))), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffAssert {
    pub n: u8,
    #[deku(count = "n")]
    pub v: Vec<u8>,
    #[deku(assert = "((deku::byte_offset as i128) < 3)")]
    pub x: u8,
    #[deku(assert = "((deku::bit_offset as i128) >= 16)")]
    pub y: u8,
}
impl Conv for OffAssert {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv(), self.x.tv(), self.y.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffAssert { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]), x: Conv::fv(&i[2]), y: Conv::fv(&i[3]) } }
}
pub fn d_OffAssert() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffAssert", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { assert: Some(b(Bop::Lt, X::ByteOff, l(3))), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Ge, X::BitOff, l(16))), ..FieldD::new("y", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffPad {
    #[deku(pad_bytes_before = "2")]
    pub a: u8,
    #[deku(count = "(deku::byte_offset as i128)", pad_bytes_before = "1")]
    pub v: Vec<u8>,
    #[deku(assert = "((deku::byte_offset as i128) > 5)", magic = b"\x01\x02")]
    pub e: u8,
}
impl Conv for OffPad {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.v.tv(), self.e.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffPad { a: Conv::fv(&i[0]), v: Conv::fv(&i[1]), e: Conv::fv(&i[2]) } }
}
pub fn d_OffPad() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffPad", kind: Kind::Struct { fields: vec![FieldD { pad_bytes_before: Some(l(2)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), lim: Lim::Count(X::ByteOff), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { assert: Some(b(Bop::Gt, X::ByteOff, l(5))), magic: Some(b"\x01\x02"), ..FieldD::new("e", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AsCtxNone {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "5")]
    pub n: u8,
    #[deku(ctx = "deku::ctx::BitSize((4) as usize)", count = "n")]
    pub v: Vec<u8>,
    #[deku(ctx = "deku::ctx::BitSize((((*n as i128) + 2)) as usize)", count = "((*n as i128) % 3)")]
    pub w: Vec<u8>,
    #[deku(ctx = "deku::ctx::BitSize((11) as usize)")]
    pub a: u16,
    #[deku(ctx = "deku::ctx::ByteSize((3) as usize)")]
    pub b: i32,
    #[deku(ctx = "deku::ctx::BitSize((5) as usize)")]
    pub c: [u8; 3],
    #[deku(ctx = "deku::ctx::BitSize((12) as usize)", bits_read = "24")]
    pub d: Vec<u16>,
    #[deku(count = "2")]
    pub e: Vec<u8>,
    #[deku(ctx = "deku::ctx::BitSize((9) as usize)", read_all)]
    pub f: Vec<u16>,
}
impl Conv for AsCtxNone {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.n.tv(), self.v.tv(), self.w.tv(), self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AsCtxNone { p: Conv::fv(&i[0]), n: Conv::fv(&i[1]), v: Conv::fv(&i[2]), w: Conv::fv(&i[3]), a: Conv::fv(&i[4]), b: Conv::fv(&i[5]), c: Conv::fv(&i[6]), d: Conv::fv(&i[7]), e: Conv::fv(&i[8]), f: Conv::fv(&i[9]) } }
}
pub fn d_AsCtxNone() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AsCtxNone", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), lim: Lim::Count(X::F(1)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(b(Bop::Add, X::F(1), l(2))), lim: Lim::Count(b(Bop::Rem, X::F(1), l(3))), ..FieldD::new("w", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(11)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("b", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(5)), ..FieldD::new("c", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { bits: Some(l(12)), lim: Lim::Bits(l(24)), ..FieldD::new("d", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { lim: Lim::Count(l(2)), ..FieldD::new("e", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(9)), lim: Lim::All, ..FieldD::new("f", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "little")]
pub struct AsCtxLittle {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "5")]
    pub n: u8,
    #[deku(ctx = "deku::ctx::BitSize((4) as usize)", count = "n")]
    pub v: Vec<u8>,
    #[deku(ctx = "deku::ctx::BitSize((((*n as i128) + 2)) as usize)", count = "((*n as i128) % 3)")]
    pub w: Vec<u8>,
    #[deku(ctx = "deku::ctx::BitSize((11) as usize)")]
    pub a: u16,
    #[deku(ctx = "deku::ctx::ByteSize((3) as usize)")]
    pub b: i32,
    #[deku(ctx = "deku::ctx::BitSize((5) as usize)")]
    pub c: [u8; 3],
    #[deku(ctx = "deku::ctx::BitSize((12) as usize)", bits_read = "24")]
    pub d: Vec<u16>,
    #[deku(count = "2")]
    pub e: Vec<u8>,
    #[deku(ctx = "deku::ctx::BitSize((9) as usize)", read_all)]
    pub f: Vec<u16>,
}
impl Conv for AsCtxLittle {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.n.tv(), self.v.tv(), self.w.tv(), self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AsCtxLittle { p: Conv::fv(&i[0]), n: Conv::fv(&i[1]), v: Conv::fv(&i[2]), w: Conv::fv(&i[3]), a: Conv::fv(&i[4]), b: Conv::fv(&i[5]), c: Conv::fv(&i[6]), d: Conv::fv(&i[7]), e: Conv::fv(&i[8]), f: Conv::fv(&i[9]) } }
}
pub fn d_AsCtxLittle() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AsCtxLittle", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), lim: Lim::Count(X::F(1)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(b(Bop::Add, X::F(1), l(2))), lim: Lim::Count(b(Bop::Rem, X::F(1), l(3))), ..FieldD::new("w", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(11)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("b", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(5)), ..FieldD::new("c", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { bits: Some(l(12)), lim: Lim::Bits(l(24)), ..FieldD::new("d", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { lim: Lim::Count(l(2)), ..FieldD::new("e", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(9)), lim: Lim::All, ..FieldD::new("f", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Le)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct AsCtxBig {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "5")]
    pub n: u8,
    #[deku(ctx = "deku::ctx::BitSize((4) as usize)", count = "n")]
    pub v: Vec<u8>,
    #[deku(ctx = "deku::ctx::BitSize((((*n as i128) + 2)) as usize)", count = "((*n as i128) % 3)")]
    pub w: Vec<u8>,
    #[deku(ctx = "deku::ctx::BitSize((11) as usize)")]
    pub a: u16,
    #[deku(ctx = "deku::ctx::ByteSize((3) as usize)")]
    pub b: i32,
    #[deku(ctx = "deku::ctx::BitSize((5) as usize)")]
    pub c: [u8; 3],
    #[deku(ctx = "deku::ctx::BitSize((12) as usize)", bits_read = "24")]
    pub d: Vec<u16>,
    #[deku(count = "2")]
    pub e: Vec<u8>,
    #[deku(ctx = "deku::ctx::BitSize((9) as usize)", read_all)]
    pub f: Vec<u16>,
}
impl Conv for AsCtxBig {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.n.tv(), self.v.tv(), self.w.tv(), self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv(), self.f.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AsCtxBig { p: Conv::fv(&i[0]), n: Conv::fv(&i[1]), v: Conv::fv(&i[2]), w: Conv::fv(&i[3]), a: Conv::fv(&i[4]), b: Conv::fv(&i[5]), c: Conv::fv(&i[6]), d: Conv::fv(&i[7]), e: Conv::fv(&i[8]), f: Conv::fv(&i[9]) } }
}
pub fn d_AsCtxBig() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AsCtxBig", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), lim: Lim::Count(X::F(1)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(b(Bop::Add, X::F(1), l(2))), lim: Lim::Count(b(Bop::Rem, X::F(1), l(3))), ..FieldD::new("w", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(11)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { bytes: Some(l(3)), ..FieldD::new("b", Ty::Int { w: 32, s: true }) }, FieldD { bits: Some(l(5)), ..FieldD::new("c", Ty::Arr(Box::new(Ty::Int { w: 8, s: false }), 3)) }, FieldD { bits: Some(l(12)), lim: Lim::Bits(l(24)), ..FieldD::new("d", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { lim: Lim::Count(l(2)), ..FieldD::new("e", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(9)), lim: Lim::All, ..FieldD::new("f", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AsCtxEnd {
    #[deku(ctx = "deku::ctx::Endian::Big")]
    pub a: u16,
    #[deku(ctx = "deku::ctx::Endian::Little")]
    pub b: u32,
    #[deku(ctx = "deku::ctx::Endian::Big, deku::ctx::BitSize((19) as usize)")]
    pub c: u32,
    #[deku(ctx = "deku::ctx::Endian::Little, deku::ctx::ByteSize((5) as usize)")]
    pub d: i64,
    #[deku(bits = "2")]
    pub n: u8,
    #[deku(ctx = "deku::ctx::Endian::Big", count = "n")]
    pub v: Vec<u8>,
    #[deku(ctx = "deku::ctx::Endian::Little", count = "n")]
    pub w: Vec<u8>,
    #[deku(endian = "big", ctx = "deku::ctx::BitSize((10) as usize)", count = "n")]
    pub x: Vec<u16>,
    #[deku(bits = 3)]
    pub y: u8,
}
impl Conv for AsCtxEnd {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.n.tv(), self.v.tv(), self.w.tv(), self.x.tv(), self.y.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AsCtxEnd { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]), n: Conv::fv(&i[4]), v: Conv::fv(&i[5]), w: Conv::fv(&i[6]), x: Conv::fv(&i[7]), y: Conv::fv(&i[8]) } }
}
pub fn d_AsCtxEnd() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AsCtxEnd", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("b", Ty::Int { w: 32, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(19)), ..FieldD::new("c", Ty::Int { w: 32, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), bytes: Some(l(5)), ..FieldD::new("d", Ty::Int { w: 64, s: true }) }, FieldD { bits: Some(l(2)), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), lim: Lim::Count(X::F(4)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), lim: Lim::Count(X::F(4)), ..FieldD::new("w", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(10)), lim: Lim::Count(X::F(4)), ..FieldD::new("x", Ty::Vec(Box::new(Ty::Int { w: 16, s: false }))) }, FieldD { bits: Some(l(3)), ..FieldD::new("y", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct AsCtxOrd {
    #[deku(ctx = "deku::ctx::Endian::Little, deku::ctx::BitSize((3) as usize), deku::ctx::Order::Lsb0")]
    pub a: u8,
    #[deku(endian = "little", ctx = "deku::ctx::BitSize((5) as usize), deku::ctx::Order::Lsb0")]
    pub b: u8,
    pub n: u8,
    #[deku(endian = "little", ctx = "deku::ctx::Order::Lsb0", bits = "8", count = "n")]
    pub v: Vec<u8>,
    #[deku(endian = "big", ctx = "deku::ctx::BitSize((16) as usize), deku::ctx::Order::Lsb0")]
    pub w: u16,
}
impl Conv for AsCtxOrd {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.n.tv(), self.v.tv(), self.w.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; AsCtxOrd { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), n: Conv::fv(&i[2]), v: Conv::fv(&i[3]), w: Conv::fv(&i[4]) } }
}
pub fn d_AsCtxOrd() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "AsCtxOrd", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(3)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(5)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Le)), order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(8)), lim: Lim::Count(X::F(2)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), order: Some(OrderSpec::Lit(O::Lsb)), bits: Some(l(16)), ..FieldD::new("w", Ty::Int { w: 16, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffBits {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "5", count = "((deku::bit_offset as i128) % 4)")]
    pub v: Vec<u8>,
    #[deku(bits = "2", bits_read = "((((deku::bit_offset as i128) / 2) % 3) * 2)")]
    pub q: Vec<u8>,
    #[deku(bits = "5")]
    pub z: u8,
}
impl Conv for OffBits {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.v.tv(), self.q.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffBits { p: Conv::fv(&i[0]), v: Conv::fv(&i[1]), q: Conv::fv(&i[2]), z: Conv::fv(&i[3]) } }
}
pub fn d_OffBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffBits", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), lim: Lim::Count(b(Bop::Rem, X::BitOff, l(4))), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(2)), lim: Lim::Bits(b(Bop::Mul, b(Bop::Rem, b(Bop::Div, X::BitOff, l(2)), l(3)), l(2))), ..FieldD::new("q", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(5)), ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(ctx = "o: usize")]
pub struct OffX {
    #[deku(count = "((o as i128) % 5)")]
    pub v: Vec<u8>,
}
impl Conv for OffX {
    fn tv(&self) -> Val { Val::Rec(vec![self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffX { v: Conv::fv(&i[0]) } }
}
pub fn d_OffX() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffX", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::Count(b(Bop::Rem, X::C(0), l(5))), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffCtx {
    #[deku(endian = "big")]
    pub a: u16,
    #[deku(ctx = "((deku::byte_offset as i128)) as usize")]
    pub v: OffX,
    #[deku(ctx = "((((deku::bit_offset as i128) / 8) + 1)) as usize")]
    pub w: OffX,
}
impl Conv for OffCtx {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.v.tv(), self.w.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffCtx { a: Conv::fv(&i[0]), v: Conv::fv(&i[1]), w: Conv::fv(&i[2]) } }
}
pub fn d_OffCtx() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffCtx", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { ctx: vec![b(Bop::And, X::ByteOff, l(0xffffffffffffffff))], ..FieldD::new("v", Ty::Named(d_OffX)) }, FieldD { ctx: vec![b(Bop::And, b(Bop::Add, b(Bop::Div, X::BitOff, l(8)), l(1)), l(0xffffffffffffffff))], ..FieldD::new("w", Ty::Named(d_OffX)) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct OffMid {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = "2", assert = "((deku::bit_offset as i128) == 3)")]
    pub a: u8,
    #[deku(bits = 6)]
    pub q: u8,
    #[deku(bits = 9, assert = "(((deku::bit_offset as i128) % 8) == 3)")]
    pub b: u16,
    #[deku(bits = "2")]
    pub n: u8,
    #[deku(bits = 3, count = "n")]
    pub v: Vec<u8>,
    #[deku(bits = 4, assert = "(((deku::bit_offset as i128) % 3) >= 1)")]
    pub w: u8,
    #[deku(bits = 6)]
    pub z: u8,
}
impl Conv for OffMid {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv(), self.q.tv(), self.b.tv(), self.n.tv(), self.v.tv(), self.w.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffMid { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]), q: Conv::fv(&i[2]), b: Conv::fv(&i[3]), n: Conv::fv(&i[4]), v: Conv::fv(&i[5]), w: Conv::fv(&i[6]), z: Conv::fv(&i[7]) } }
}
pub fn d_OffMid() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffMid", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), assert: Some(b(Bop::Eq, X::BitOff, l(3))), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(6)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(9)), assert: Some(b(Bop::Eq, b(Bop::Rem, X::BitOff, l(8)), l(3))), ..FieldD::new("b", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(2)), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(3)), lim: Lim::Count(X::F(4)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(4)), assert: Some(b(Bop::Ge, b(Bop::Rem, X::BitOff, l(3)), l(1))), ..FieldD::new("w", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(6)), ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: Some(EndianSpec::Lit(E::Be)), order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct OffMidEq {
    #[deku(bits = 4)]
    pub p: u8,
    #[deku(bits = 4, assert_eq = "((deku::bit_offset as i128)) as u8")]
    pub a: u8,
    #[deku(bits = "5")]
    pub q: u8,
    #[deku(bits = 7, assert_eq = "(((deku::bit_offset as i128) + (deku::byte_offset as i128))) as u8")]
    pub b: u8,
    #[deku(bits = 4)]
    pub z: u8,
}
impl Conv for OffMidEq {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv(), self.q.tv(), self.b.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffMidEq { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]), q: Conv::fv(&i[2]), b: Conv::fv(&i[3]), z: Conv::fv(&i[4]) } }
}
pub fn d_OffMidEq() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffMidEq", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), assert_eq: Some(b(Bop::And, X::BitOff, l(0xff))), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), ..FieldD::new("q", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(7)), assert_eq: Some(b(Bop::And, b(Bop::Add, X::BitOff, X::ByteOff), l(0xff))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffMidCond {
    #[deku(bits = "2")]
    pub n: u8,
    #[deku(bits = 3, count = "n")]
    pub v: Vec<u8>,
    #[deku(bits = "5", skip, cond = "(((deku::bit_offset as i128) % 2) == 1)", default = "(3) as u8")]
    pub x: u8,
    #[deku(bits = 3, skip(write), cond = "((deku::bit_offset as i128) > 100)")]
    pub y: u8,
    #[deku(bits = 6)]
    pub z: u8,
}
impl Conv for OffMidCond {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv(), self.x.tv(), self.y.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffMidCond { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]), x: Conv::fv(&i[2]), y: Conv::fv(&i[3]), z: Conv::fv(&i[4]) } }
}
pub fn d_OffMidCond() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffMidCond", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(2)), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(3)), lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(5)), cond: Some(b(Bop::Eq, b(Bop::Rem, X::BitOff, l(2)), l(1))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(3), l(0xff)))), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(3)), cond: Some(b(Bop::Gt, X::BitOff, l(100))), skip: Skip::Write, ..FieldD::new("y", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(6)), ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(ctx = "o: usize")]
pub struct OffMidX {
    #[deku(bits = 3, skip, cond = "(((o as i128) % 4) >= 2)", default = "(0) as u8")]
    pub x: u8,
    #[deku(bits = "2", count = "((o as i128) % 3)")]
    pub v: Vec<u8>,
    #[deku(bits = "5")]
    pub w: u8,
}
impl Conv for OffMidX {
    fn tv(&self) -> Val { Val::Rec(vec![self.x.tv(), self.v.tv(), self.w.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffMidX { x: Conv::fv(&i[0]), v: Conv::fv(&i[1]), w: Conv::fv(&i[2]) } }
}
pub fn d_OffMidX() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffMidX", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), cond: Some(b(Bop::Ge, b(Bop::Rem, X::C(0), l(4)), l(2))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(0), l(0xff)))), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), lim: Lim::Count(b(Bop::Rem, X::C(0), l(3))), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(5)), ..FieldD::new("w", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffMidCtx {
    #[deku(bits = 3)]
    pub n: u8,
    #[deku(ctx = "((deku::bit_offset as i128)) as usize")]
    pub v: OffMidX,
    #[deku(ctx = "(((deku::bit_offset as i128) + (deku::byte_offset as i128))) as usize")]
    pub w: OffMidX,
    #[deku(bits = 7)]
    pub e: u8,
}
impl Conv for OffMidCtx {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv(), self.w.tv(), self.e.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffMidCtx { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]), w: Conv::fv(&i[2]), e: Conv::fv(&i[3]) } }
}
pub fn d_OffMidCtx() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffMidCtx", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { ctx: vec![b(Bop::And, X::BitOff, l(0xffffffffffffffff))], ..FieldD::new("v", Ty::Named(d_OffMidX)) }, FieldD { ctx: vec![b(Bop::And, b(Bop::Add, X::BitOff, X::ByteOff), l(0xffffffffffffffff))], ..FieldD::new("w", Ty::Named(d_OffMidX)) }, FieldD { bits: Some(l(7)), ..FieldD::new("e", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffMidLsb {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(bits = 7, assert = "((deku::bit_offset as i128) == 3)")]
    pub a: u8,
    #[deku(ctx = "((deku::bit_offset as i128)) as usize")]
    pub v: OffMidX,
    #[deku(bits = "2", assert = "(((deku::bit_offset as i128) % 2) == 1)")]
    pub b: u8,
}
impl Conv for OffMidLsb {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.a.tv(), self.v.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffMidLsb { p: Conv::fv(&i[0]), a: Conv::fv(&i[1]), v: Conv::fv(&i[2]), b: Conv::fv(&i[3]) } }
}
pub fn d_OffMidLsb() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffMidLsb", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(7)), assert: Some(b(Bop::Eq, X::BitOff, l(3))), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { ctx: vec![b(Bop::And, X::BitOff, l(0xffffffffffffffff))], ..FieldD::new("v", Ty::Named(d_OffMidX)) }, FieldD { bits: Some(l(2)), assert: Some(b(Bop::Eq, b(Bop::Rem, X::BitOff, l(2)), l(1))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "u8", bits = 3)]
pub enum OffMidVar {
    #[deku(id = 1)]
    A { #[deku(bits = 3)] a: u8, #[deku(bits = "2", assert = "((deku::bit_offset as i128) == 6)")] x: u8, #[deku(bits = "8")] z: u8 },
    #[deku(id = "2")]
    B { #[deku(ctx = "((deku::bit_offset as i128)) as usize")] v: OffMidX },
}
impl Conv for OffMidVar {
    fn tv(&self) -> Val { match self { OffMidVar::A { a, x, z } => Val::Var(0, vec![a.tv(), x.tv(), z.tv()]), OffMidVar::B { v } => Val::Var(1, vec![v.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; OffMidVar::A { a: Conv::fv(&i[0]), x: Conv::fv(&i[1]), z: Conv::fv(&i[2]) } }, Val::Var(1, i) => { let _ = i; OffMidVar::B { v: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_OffMidVar() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffMidVar", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: Some(3), bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(2)), assert: Some(b(Bop::Eq, X::BitOff, l(6))), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(8)), ..FieldD::new("z", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { ctx: vec![b(Bop::And, X::BitOff, l(0xffffffffffffffff))], ..FieldD::new("v", Ty::Named(d_OffMidX)) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffTempl {
    pub n: u8,
    #[deku(count = "n")]
    pub v: Vec<CLeaf>,
    #[deku(cond = "(((deku::byte_offset as i128) % 2) == 1)")]
    pub o: Option<u8>,
    pub z: u8,
}
impl Conv for OffTempl {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv(), self.o.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffTempl { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]), o: Conv::fv(&i[2]), z: Conv::fv(&i[3]) } }
}
pub fn d_OffTempl() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffTempl", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Named(d_CLeaf)))) }, FieldD { cond: Some(b(Bop::Eq, b(Bop::Rem, X::ByteOff, l(2)), l(1))), ..FieldD::new("o", Ty::Opt(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffIn {
    pub x: u8,
    #[deku(count = "((deku::byte_offset as i128) % 4)")]
    pub y: Vec<u8>,
}
impl Conv for OffIn {
    fn tv(&self) -> Val { Val::Rec(vec![self.x.tv(), self.y.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffIn { x: Conv::fv(&i[0]), y: Conv::fv(&i[1]) } }
}
pub fn d_OffIn() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffIn", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Rem, X::ByteOff, l(4))), ..FieldD::new("y", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffNested {
    pub a: u8,
    pub b: OffIn,
    pub c: [OffIn; 2],
    pub z: u8,
}
impl Conv for OffNested {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffNested { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), z: Conv::fv(&i[3]) } }
}
pub fn d_OffNested() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffNested", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Named(d_OffIn)) }, FieldD { ..FieldD::new("c", Ty::Arr(Box::new(Ty::Named(d_OffIn)), 2)) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffUntil {
    #[deku(endian = "big")]
    pub a: u16,
    #[deku(until = "|v: &u8| ((*v as i128) == (deku::byte_offset as i128))")]
    pub v: Vec<u8>,
    pub z: u8,
}
impl Conv for OffUntil {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.v.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffUntil { a: Conv::fv(&i[0]), v: Conv::fv(&i[1]), z: Conv::fv(&i[2]) } }
}
pub fn d_OffUntil() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffUntil", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Until(b(Bop::Eq, X::Elem, X::ByteOff)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffDef {
    #[deku(endian = "big")]
    pub a: u16,
    #[deku(skip, default = "(((deku::bit_offset as i128) + 1)) as u16")]
    pub s: u16,
    pub k: u8,
    #[deku(skip(read), default = "((deku::byte_offset as i128)) as u8")]
    pub c: u8,
    pub z: u8,
}
impl Conv for OffDef {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.s.tv(), self.k.tv(), self.c.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffDef { a: Conv::fv(&i[0]), s: Conv::fv(&i[1]), k: Conv::fv(&i[2]), c: Conv::fv(&i[3]), z: Conv::fv(&i[4]) } }
}
pub fn d_OffDef() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffDef", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { skip: Skip::All, default: Some(Default_::Int(b(Bop::And, b(Bop::Add, X::BitOff, l(1)), l(0xffff)))), ..FieldD::new("s", Ty::Int { w: 16, s: false }) }, FieldD { hint: Hint::Range(0, 4), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { skip: Skip::Read, default: Some(Default_::Int(b(Bop::And, X::ByteOff, l(0xff)))), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffDefC {
    pub a: u8,
    #[deku(cond = "((*a as i128) > 2)", default = "Some((((deku::byte_offset as i128) + 7)) as u8)")]
    pub o: Option<u8>,
    #[deku(bits = 4)]
    pub z: u8,
    #[deku(bits = 4)]
    pub w: u8,
}
impl Conv for OffDefC {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.o.tv(), self.z.tv(), self.w.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffDefC { a: Conv::fv(&i[0]), o: Conv::fv(&i[1]), z: Conv::fv(&i[2]), w: Conv::fv(&i[3]) } }
}
pub fn d_OffDefC() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffDefC", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Gt, X::F(0), l(2))), default: Some(Default_::Some(b(Bop::And, b(Bop::Add, X::ByteOff, l(7)), l(0xff)))), ..FieldD::new("o", Ty::Opt(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { bits: Some(l(4)), ..FieldD::new("z", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("w", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffBytes {
    #[deku(endian = "big")]
    pub a: u16,
    #[deku(bytes_read = "(deku::byte_offset as i128)")]
    pub v: Vec<u8>,
    pub z: u8,
}
impl Conv for OffBytes {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.v.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffBytes { a: Conv::fv(&i[0]), v: Conv::fv(&i[1]), z: Conv::fv(&i[2]) } }
}
pub fn d_OffBytes() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffBytes", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bytes(X::ByteOff), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffBitsR {
    #[deku(endian = "big")]
    pub a: u16,
    #[deku(bits_read = "(deku::bit_offset as i128)")]
    pub v: Vec<u8>,
    pub z: u8,
}
impl Conv for OffBitsR {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.v.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffBitsR { a: Conv::fv(&i[0]), v: Conv::fv(&i[1]), z: Conv::fv(&i[2]) } }
}
pub fn d_OffBitsR() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffBitsR", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { lim: Lim::Bits(X::BitOff), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, DekuSize)]
pub struct OffEq {
    #[deku(endian = "big")]
    pub p: u16,
    #[deku(assert_eq = "(((deku::bit_offset as i128) % 16)) as u8")]
    pub x: u8,
    pub y: u8,
}
impl Conv for OffEq {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.x.tv(), self.y.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffEq { p: Conv::fv(&i[0]), x: Conv::fv(&i[1]), y: Conv::fv(&i[2]) } }
}
pub fn d_OffEq() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffEq", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("p", Ty::Int { w: 16, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, b(Bop::Rem, X::BitOff, l(16)), l(0xff))), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("y", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffEqB {
    pub n: u8,
    #[deku(count = "n")]
    pub v: Vec<u8>,
    #[deku(assert_eq = "((deku::byte_offset as i128)) as u8")]
    pub x: u8,
}
impl Conv for OffEqB {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv(), self.x.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffEqB { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]), x: Conv::fv(&i[2]) } }
}
pub fn d_OffEqB() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffEqB", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { assert_eq: Some(b(Bop::And, X::ByteOff, l(0xff))), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekS {
    pub a: u8,
    #[deku(endian = "big", seek_from_start = "4")]
    pub b: u16,
    pub c: u8,
}
impl Conv for SeekS {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekS { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_SeekS() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekS", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), seek: Some(SeekSpec::Start(l(4))), ..FieldD::new("b", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekC {
    pub a: u8,
    #[deku(seek_from_current = "2")]
    pub b: u8,
    pub c: u8,
}
impl Conv for SeekC {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekC { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_SeekC() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekC", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(l(2))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekCN {
    #[deku(endian = "big")]
    pub a: u16,
    #[deku(seek_from_current = "-1")]
    pub b: u8,
    pub c: u8,
}
impl Conv for SeekCN {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekCN { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_SeekCN() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekCN", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { seek: Some(SeekSpec::Current(l(-1))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekE {
    pub a: u8,
    #[deku(seek_from_end = "-2")]
    pub b: u8,
    pub c: u8,
}
impl Conv for SeekE {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekE { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_SeekE() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekE", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::End(l(-2))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekR {
    pub a: u8,
    pub b: u8,
    #[deku(endian = "big", seek_rewind)]
    pub c: u16,
}
impl Conv for SeekR {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekR { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_SeekR() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekR", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), seek: Some(SeekSpec::Rewind), ..FieldD::new("c", Ty::Int { w: 16, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekX {
    pub o: u8,
    #[deku(seek_from_start = "(*o as i128)")]
    pub b: u8,
    #[deku(seek_from_current = "((*o as i128) - 3)")]
    pub c: u8,
}
impl Conv for SeekX {
    fn tv(&self) -> Val { Val::Rec(vec![self.o.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekX { o: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_SeekX() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekX", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(1, 6), ..FieldD::new("o", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(X::F(0))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(b(Bop::Sub, X::F(0), l(3)))), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekXS {
    pub o: i8,
    #[deku(seek_from_start = "(*o as i128)")]
    pub b: u8,
    #[deku(seek_from_current = "(*o as i128)")]
    pub c: u8,
}
impl Conv for SeekXS {
    fn tv(&self) -> Val { Val::Rec(vec![self.o.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekXS { o: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_SeekXS() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekXS", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(1, 6), ..FieldD::new("o", Ty::Int { w: 8, s: true }) }, FieldD { seek: Some(SeekSpec::Start(X::F(0))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(X::F(0))), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekXE {
    pub o: i8,
    #[deku(seek_from_end = "(*o as i128)")]
    pub b: u8,
    pub c: u8,
}
impl Conv for SeekXE {
    fn tv(&self) -> Val { Val::Rec(vec![self.o.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekXE { o: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_SeekXE() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekXE", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(-4, -1), ..FieldD::new("o", Ty::Int { w: 8, s: true }) }, FieldD { seek: Some(SeekSpec::End(X::F(0))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekBits {
    #[deku(bits = 4)]
    pub a: u8,
    #[deku(bits = 4)]
    pub b: u8,
    #[deku(bits = 4, seek_from_start = "3")]
    pub c: u8,
    #[deku(bits = 4)]
    pub d: u8,
}
impl Conv for SeekBits {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekBits { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]) } }
}
pub fn d_SeekBits() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekBits", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), seek: Some(SeekSpec::Start(l(3))), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("d", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(seek_from_start = "2")]
pub struct SeekTop {
    pub a: u8,
    pub b: u8,
}
impl Conv for SeekTop {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekTop { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_SeekTop() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekTop", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: Some(SeekSpec::Start(l(2))) }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(seek_rewind)]
pub struct SeekTopR {
    pub a: u8,
    pub b: u8,
}
impl Conv for SeekTopR {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekTopR { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_SeekTopR() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekTopR", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: Some(SeekSpec::Rewind) }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(seek_from_current = "1")]
pub struct SeekTopC {
    pub a: u8,
    pub b: u8,
}
impl Conv for SeekTopC {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekTopC { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_SeekTopC() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekTopC", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: Some(SeekSpec::Current(l(1))) }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(seek_from_end = "-2")]
pub struct SeekTopE {
    pub a: u8,
    pub b: u8,
}
impl Conv for SeekTopE {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekTopE { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_SeekTopE() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekTopE", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: Some(SeekSpec::End(l(-2))) }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(seek_from_current = "1")]
pub struct SeekIn {
    pub a: u8,
}
impl Conv for SeekIn {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekIn { a: Conv::fv(&i[0]) } }
}
pub fn d_SeekIn() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekIn", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }], seek: Some(SeekSpec::Current(l(1))) }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekVec {
    pub n: u8,
    #[deku(count = "n")]
    pub v: Vec<SeekIn>,
    pub z: u8,
}
impl Conv for SeekVec {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekVec { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]), z: Conv::fv(&i[2]) } }
}
pub fn d_SeekVec() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekVec", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Named(d_SeekIn)))) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekVecB {
    pub n: u8,
    #[deku(bytes_read = "((*n as i128) * 2)")]
    pub v: Vec<SeekIn>,
    pub z: u8,
}
impl Conv for SeekVecB {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekVecB { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]), z: Conv::fv(&i[2]) } }
}
pub fn d_SeekVecB() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekVecB", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Bytes(b(Bop::Mul, X::F(0), l(2))), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Named(d_SeekIn)))) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekVecA {
    pub h: u8,
    #[deku(read_all)]
    pub v: Vec<SeekIn>,
}
impl Conv for SeekVecA {
    fn tv(&self) -> Val { Val::Rec(vec![self.h.tv(), self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekVecA { h: Conv::fv(&i[0]), v: Conv::fv(&i[1]) } }
}
pub fn d_SeekVecA() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekVecA", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("h", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::All, ..FieldD::new("v", Ty::Vec(Box::new(Ty::Named(d_SeekIn)))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekIn2 {
    pub a: u8,
    #[deku(seek_from_current = "2")]
    pub b: u8,
    #[deku(seek_from_current = "-2")]
    pub c: u8,
}
impl Conv for SeekIn2 {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekIn2 { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_SeekIn2() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekIn2", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(l(2))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(l(-2))), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekVecA2 {
    #[deku(read_all)]
    pub v: Vec<SeekIn2>,
}
impl Conv for SeekVecA2 {
    fn tv(&self) -> Val { Val::Rec(vec![self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekVecA2 { v: Conv::fv(&i[0]) } }
}
pub fn d_SeekVecA2() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekVecA2", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::All, ..FieldD::new("v", Ty::Vec(Box::new(Ty::Named(d_SeekIn2)))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
pub enum SeekIn3 {
    #[deku(id = 1)]
    A { #[deku(endian = "big", seek_from_current = "1")] x: u16 },
    #[deku(id = "2", default)]
    B { x: u8 },
}
impl Conv for SeekIn3 {
    fn tv(&self) -> Val { match self { SeekIn3::A { x } => Val::Var(0, vec![x.tv()]), SeekIn3::B { x } => Val::Var(1, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; SeekIn3::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; SeekIn3::B { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_SeekIn3() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekIn3", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), seek: Some(SeekSpec::Current(l(1))), ..FieldD::new("x", Ty::Int { w: 16, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: true, fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekVecA3 {
    #[deku(read_all)]
    pub v: Vec<SeekIn3>,
}
impl Conv for SeekVecA3 {
    fn tv(&self) -> Val { Val::Rec(vec![self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekVecA3 { v: Conv::fv(&i[0]) } }
}
pub fn d_SeekVecA3() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekVecA3", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::All, ..FieldD::new("v", Ty::Vec(Box::new(Ty::Named(d_SeekIn3)))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, PartialEq, Eq, Hash)]
pub struct SeekIn4 {
    #[deku(seek_from_current = "0")]
    pub a: u8,
    pub b: u8,
}
impl Conv for SeekIn4 {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekIn4 { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_SeekIn4() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekIn4", kind: Kind::Struct { fields: vec![FieldD { seek: Some(SeekSpec::Current(l(0))), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekVecA4 {
    #[deku(read_all)]
    pub v: Vec<SeekIn4>,
}
impl Conv for SeekVecA4 {
    fn tv(&self) -> Val { Val::Rec(vec![self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekVecA4 { v: Conv::fv(&i[0]) } }
}
pub fn d_SeekVecA4() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekVecA4", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::All, ..FieldD::new("v", Ty::Vec(Box::new(Ty::Named(d_SeekIn4)))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekSetA {
    #[deku(read_all)]
    pub v: std::collections::HashSet<SeekIn4>,
}
impl Conv for SeekSetA {
    fn tv(&self) -> Val { Val::Rec(vec![self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekSetA { v: Conv::fv(&i[0]) } }
}
pub fn d_SeekSetA() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekSetA", kind: Kind::Struct { fields: vec![FieldD { lim: Lim::All, ..FieldD::new("v", Ty::Set(Box::new(Ty::Named(d_SeekIn4)))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, PartialEq, Eq, Hash)]
pub struct SeekIn5 {
    #[deku(seek_from_start = "0")]
    pub a: u8,
    pub b: u8,
}
impl Conv for SeekIn5 {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekIn5 { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_SeekIn5() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekIn5", kind: Kind::Struct { fields: vec![FieldD { seek: Some(SeekSpec::Start(l(0))), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite, PartialEq, Eq, Hash)]
pub struct SeekIn6 {
    pub a: u8,
    #[deku(seek_from_current = "-3")]
    pub b: u8,
}
impl Conv for SeekIn6 {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekIn6 { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_SeekIn6() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekIn6", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Current(l(-3))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekBackV {
    pub x: u16,
    pub n: u8,
    #[deku(count = "n")]
    pub v: Vec<SeekIn5>,
    pub z: u8,
}
impl Conv for SeekBackV {
    fn tv(&self) -> Val { Val::Rec(vec![self.x.tv(), self.n.tv(), self.v.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekBackV { x: Conv::fv(&i[0]), n: Conv::fv(&i[1]), v: Conv::fv(&i[2]), z: Conv::fv(&i[3]) } }
}
pub fn d_SeekBackV() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekBackV", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Named(d_SeekIn5)))) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekBackW {
    pub x: u16,
    pub n: u8,
    #[deku(count = "n")]
    pub v: Vec<SeekIn6>,
    pub z: u8,
}
impl Conv for SeekBackW {
    fn tv(&self) -> Val { Val::Rec(vec![self.x.tv(), self.n.tv(), self.v.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekBackW { x: Conv::fv(&i[0]), n: Conv::fv(&i[1]), v: Conv::fv(&i[2]), z: Conv::fv(&i[3]) } }
}
pub fn d_SeekBackW() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekBackW", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }, FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Named(d_SeekIn6)))) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekBackS {
    pub x: u16,
    pub n: u8,
    #[deku(count = "n")]
    pub v: std::collections::HashSet<SeekIn5>,
    pub z: u8,
}
impl Conv for SeekBackS {
    fn tv(&self) -> Val { Val::Rec(vec![self.x.tv(), self.n.tv(), self.v.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekBackS { x: Conv::fv(&i[0]), n: Conv::fv(&i[1]), v: Conv::fv(&i[2]), z: Conv::fv(&i[3]) } }
}
pub fn d_SeekBackS() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekBackS", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }, FieldD { hint: Hint::Range(0, 1), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("v", Ty::Set(Box::new(Ty::Named(d_SeekIn5)))) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekBackM {
    pub x: u16,
    pub n: u8,
    #[deku(count = "n")]
    pub v: std::collections::HashMap<u8, SeekIn5>,
    pub z: u8,
}
impl Conv for SeekBackM {
    fn tv(&self) -> Val { Val::Rec(vec![self.x.tv(), self.n.tv(), self.v.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekBackM { x: Conv::fv(&i[0]), n: Conv::fv(&i[1]), v: Conv::fv(&i[2]), z: Conv::fv(&i[3]) } }
}
pub fn d_SeekBackM() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekBackM", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("x", Ty::Int { w: 16, s: false }) }, FieldD { hint: Hint::Range(0, 1), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(1)), ..FieldD::new("v", Ty::Map(Box::new(Ty::Int { w: 8, s: false }), Box::new(Ty::Named(d_SeekIn5)))) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekHuge {
    #[deku(endian = "little")]
    pub o: u64,
    #[deku(seek_from_start = "(*o as i128)")]
    pub b: u8,
}
impl Conv for SeekHuge {
    fn tv(&self) -> Val { Val::Rec(vec![self.o.tv(), self.b.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekHuge { o: Conv::fv(&i[0]), b: Conv::fv(&i[1]) } }
}
pub fn d_SeekHuge() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekHuge", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::Range(8, 12), ..FieldD::new("o", Ty::Int { w: 64, s: false }) }, FieldD { seek: Some(SeekSpec::Start(X::F(0))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekHuge2 {
    #[deku(endian = "little")]
    pub o: i128,
    #[deku(seek_from_current = "(*o as i128)")]
    pub b: u8,
    #[deku(seek_from_start = "(*o as i128)")]
    pub c: u8,
}
impl Conv for SeekHuge2 {
    fn tv(&self) -> Val { Val::Rec(vec![self.o.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekHuge2 { o: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_SeekHuge2() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekHuge2", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), hint: Hint::Range(0, 4), ..FieldD::new("o", Ty::Int { w: 128, s: true }) }, FieldD { seek: Some(SeekSpec::Current(X::F(0))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(X::F(0))), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekPad {
    #[deku(bits = 3)]
    pub a: u8,
    #[deku(bits = "5")]
    pub b: u8,
    #[deku(pad_bytes_before = "1", pad_bytes_after = "1", seek_from_start = "1")]
    pub c: u8,
    pub d: u8,
}
impl Conv for SeekPad {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekPad { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]) } }
}
pub fn d_SeekPad() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekPad", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(1)), pad_bytes_after: Some(l(1)), seek: Some(SeekSpec::Start(l(1))), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("d", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct SeekOff {
    pub a: u8,
    #[deku(seek_from_start = "3")]
    pub b: u8,
    #[deku(count = "((deku::byte_offset as i128) % 5)")]
    pub v: Vec<u8>,
}
impl Conv for SeekOff {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.v.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; SeekOff { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), v: Conv::fv(&i[2]) } }
}
pub fn d_SeekOff() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekOff", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { seek: Some(SeekSpec::Start(l(3))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Rem, X::ByteOff, l(5))), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffSeek {
    #[deku(endian = "little")]
    pub a: u16,
    #[deku(assert = "((deku::byte_offset as i128) == 5)", seek_from_start = "5")]
    pub b: u8,
    #[deku(assert = "((deku::byte_offset as i128) == 3)", seek_from_current = "-3")]
    pub c: u8,
    #[deku(assert = "((deku::bit_offset as i128) == 32)")]
    pub d: u8,
    #[deku(assert_eq = "((deku::byte_offset as i128)) as u8", seek_from_current = "2")]
    pub e: u8,
}
impl Conv for OffSeek {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv(), self.e.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffSeek { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]), e: Conv::fv(&i[4]) } }
}
pub fn d_OffSeek() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffSeek", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { assert: Some(b(Bop::Eq, X::ByteOff, l(5))), seek: Some(SeekSpec::Start(l(5))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Eq, X::ByteOff, l(3))), seek: Some(SeekSpec::Current(l(-3))), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Eq, X::BitOff, l(32))), ..FieldD::new("d", Ty::Int { w: 8, s: false }) }, FieldD { assert_eq: Some(b(Bop::And, X::ByteOff, l(0xff))), seek: Some(SeekSpec::Current(l(2))), ..FieldD::new("e", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffSeekR {
    #[deku(endian = "little")]
    pub a: u16,
    #[deku(bits = 3, assert = "((deku::bit_offset as i128) == 0)", seek_rewind)]
    pub b: u8,
    #[deku(bits = "5", assert = "((deku::bit_offset as i128) == 3)")]
    pub c: u8,
    #[deku(assert = "((deku::byte_offset as i128) == 1)")]
    pub d: u8,
}
impl Conv for OffSeekR {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv(), self.d.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffSeekR { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]), d: Conv::fv(&i[3]) } }
}
pub fn d_OffSeekR() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffSeekR", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Le)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { bits: Some(l(3)), assert: Some(b(Bop::Eq, X::BitOff, l(0))), seek: Some(SeekSpec::Rewind), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(5)), assert: Some(b(Bop::Eq, X::BitOff, l(3))), ..FieldD::new("c", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Eq, X::ByteOff, l(1))), ..FieldD::new("d", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(ctx = "o: usize")]
pub struct OffSeekX {
    #[deku(skip, cond = "(((o as i128) % 2) == 1)", default = "(0) as u8")]
    pub x: u8,
    #[deku(count = "((o as i128) % 3)")]
    pub v: Vec<u8>,
    pub w: u8,
}
impl Conv for OffSeekX {
    fn tv(&self) -> Val { Val::Rec(vec![self.x.tv(), self.v.tv(), self.w.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffSeekX { x: Conv::fv(&i[0]), v: Conv::fv(&i[1]), w: Conv::fv(&i[2]) } }
}
pub fn d_OffSeekX() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffSeekX", kind: Kind::Struct { fields: vec![FieldD { cond: Some(b(Bop::Eq, b(Bop::Rem, X::C(0), l(2)), l(1))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(0), l(0xff)))), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Rem, X::C(0), l(3))), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("w", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffSeekCtx {
    pub n: u8,
    #[deku(ctx = "((deku::byte_offset as i128)) as usize", seek_from_start = "((*n as i128) + 1)")]
    pub v: OffSeekX,
    #[deku(ctx = "(((deku::bit_offset as i128) / 8)) as usize", seek_from_current = "1")]
    pub w: OffSeekX,
    #[deku(bits = 4, seek_from_current = "1")]
    pub y: u8,
    #[deku(bits = 4, assert = "(((deku::bit_offset as i128) % 8) == 4)")]
    pub z: u8,
}
impl Conv for OffSeekCtx {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv(), self.w.tv(), self.y.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffSeekCtx { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]), w: Conv::fv(&i[2]), y: Conv::fv(&i[3]), z: Conv::fv(&i[4]) } }
}
pub fn d_OffSeekCtx() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffSeekCtx", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 6), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { ctx: vec![b(Bop::And, X::ByteOff, l(0xffffffffffffffff))], seek: Some(SeekSpec::Start(b(Bop::Add, X::F(0), l(1)))), ..FieldD::new("v", Ty::Named(d_OffSeekX)) }, FieldD { ctx: vec![b(Bop::And, b(Bop::Div, X::BitOff, l(8)), l(0xffffffffffffffff))], seek: Some(SeekSpec::Current(l(1))), ..FieldD::new("w", Ty::Named(d_OffSeekX)) }, FieldD { bits: Some(l(4)), seek: Some(SeekSpec::Current(l(1))), ..FieldD::new("y", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), assert: Some(b(Bop::Eq, b(Bop::Rem, X::BitOff, l(8)), l(4))), ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffSeekSkip {
    pub n: u8,
    #[deku(count = "n", seek_from_current = "2")]
    pub v: Vec<u8>,
    #[deku(endian = "big", skip, cond = "(((deku::byte_offset as i128) % 2) == 1)", default = "(7) as u16")]
    pub x: u16,
    #[deku(assert = "((deku::byte_offset as i128) >= 3)")]
    pub z: u8,
}
impl Conv for OffSeekSkip {
    fn tv(&self) -> Val { Val::Rec(vec![self.n.tv(), self.v.tv(), self.x.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffSeekSkip { n: Conv::fv(&i[0]), v: Conv::fv(&i[1]), x: Conv::fv(&i[2]), z: Conv::fv(&i[3]) } }
}
pub fn d_OffSeekSkip() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffSeekSkip", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 3), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(X::F(0)), seek: Some(SeekSpec::Current(l(2))), ..FieldD::new("v", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), cond: Some(b(Bop::Eq, b(Bop::Rem, X::ByteOff, l(2)), l(1))), skip: Skip::All, default: Some(Default_::Int(b(Bop::And, l(7), l(0xffff)))), ..FieldD::new("x", Ty::Int { w: 16, s: false }) }, FieldD { assert: Some(b(Bop::Ge, X::ByteOff, l(3))), ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct OffSeekPad {
    pub a: u8,
    #[deku(pad_bytes_before = "2", pad_bytes_after = "1", assert_eq = "((deku::byte_offset as i128)) as u8", seek_from_start = "4")]
    pub b: u8,
    #[deku(count = "((deku::byte_offset as i128) % 4)")]
    pub c: Vec<u8>,
}
impl Conv for OffSeekPad {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.c.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; OffSeekPad { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), c: Conv::fv(&i[2]) } }
}
pub fn d_OffSeekPad() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "OffSeekPad", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { pad_bytes_before: Some(l(2)), pad_bytes_after: Some(l(1)), assert_eq: Some(b(Bop::And, X::ByteOff, l(0xff))), seek: Some(SeekSpec::Start(l(4))), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { lim: Lim::Count(b(Bop::Rem, X::ByteOff, l(4))), ..FieldD::new("c", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
pub enum SeekE2 {
    #[deku(id = "1")]
    A { #[deku(seek_from_start = "3")] x: u8 },
    #[deku(id = 2)]
    B { #[deku(seek_from_current = "1")] x: u8 },
}
impl Conv for SeekE2 {
    fn tv(&self) -> Val { match self { SeekE2::A { x } => Val::Var(0, vec![x.tv()]), SeekE2::B { x } => Val::Var(1, vec![x.tv()]) } }
    fn fv(v: &Val) -> Self { match v { Val::Var(0, i) => { let _ = i; SeekE2::A { x: Conv::fv(&i[0]) } }, Val::Var(1, i) => { let _ = i; SeekE2::B { x: Conv::fv(&i[0]) } }, _ => panic!("shape") } }
}
pub fn d_SeekE2() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "SeekE2", kind: Kind::Enum { id: IdSrc::Read { ty: Ty::Int { w: 8, s: false }, endian: None, order: None, bits: None, bytes: None }, variants: vec![VariantD { name: "A", id: Some(Val::N(1)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { seek: Some(SeekSpec::Start(l(3))), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }, VariantD { name: "B", id: Some(Val::N(2)), explicit_id: true, pat: None, default: false, fields: vec![FieldD { seek: Some(SeekSpec::Current(l(1))), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }] }] }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct Custom {
    pub k: u8,
    #[deku(reader = "custom::rd_xor(deku::reader)", writer = "custom::wr_xor(deku::writer, x)")]
    pub x: u8,
    #[deku(reader = "custom::rd_key(deku::reader, *k)", writer = "custom::wr_key(deku::writer, *y, *k)")]
    pub y: u16,
    pub z: u8,
}
impl Conv for Custom {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.x.tv(), self.y.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Custom { k: Conv::fv(&i[0]), x: Conv::fv(&i[1]), y: Conv::fv(&i[2]), z: Conv::fv(&i[3]) } }
}
pub fn d_Custom() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Custom", kind: Kind::Struct { fields: vec![FieldD { ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { reader: Some(custom::m_rd_xor), writer: Some(custom::m_wr_xor), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { reader: Some(custom::m_rd_key), writer: Some(custom::m_wr_key), ..FieldD::new("y", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CustomB {
    #[deku(bits = 3)]
    pub p: u8,
    #[deku(reader = "custom::rd_five(deku::reader)", writer = "custom::wr_five(deku::writer, *x)")]
    pub x: u8,
    pub z: u8,
}
impl Conv for CustomB {
    fn tv(&self) -> Val { Val::Rec(vec![self.p.tv(), self.x.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CustomB { p: Conv::fv(&i[0]), x: Conv::fv(&i[1]), z: Conv::fv(&i[2]) } }
}
pub fn d_CustomB() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CustomB", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(3)), ..FieldD::new("p", Ty::Int { w: 8, s: false }) }, FieldD { reader: Some(custom::m_rd_five), writer: Some(custom::m_wr_five), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CustomV {
    #[deku(reader = "custom::rd_blob(deku::reader)", writer = "custom::wr_blob(deku::writer, a)")]
    pub a: Vec<u8>,
    pub z: u8,
}
impl Conv for CustomV {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CustomV { a: Conv::fv(&i[0]), z: Conv::fv(&i[1]) } }
}
pub fn d_CustomV() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CustomV", kind: Kind::Struct { fields: vec![FieldD { reader: Some(custom::m_rd_blob), writer: Some(custom::m_wr_blob), ..FieldD::new("a", Ty::Vec(Box::new(Ty::Int { w: 8, s: false }))) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CustomC {
    pub k: u8,
    #[deku(cond = "((*k as i128) > 1)", default = "(6) as u8", reader = "custom::rd_xor(deku::reader)", writer = "custom::wr_xor(deku::writer, x)")]
    pub x: u8,
    pub z: u8,
}
impl Conv for CustomC {
    fn tv(&self) -> Val { Val::Rec(vec![self.k.tv(), self.x.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CustomC { k: Conv::fv(&i[0]), x: Conv::fv(&i[1]), z: Conv::fv(&i[2]) } }
}
pub fn d_CustomC() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CustomC", kind: Kind::Struct { fields: vec![FieldD { hint: Hint::Range(0, 4), ..FieldD::new("k", Ty::Int { w: 8, s: false }) }, FieldD { cond: Some(b(Bop::Gt, X::F(0), l(1))), default: Some(Default_::Int(b(Bop::And, l(6), l(0xff)))), reader: Some(custom::m_rd_xor), writer: Some(custom::m_wr_xor), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CustomR {
    #[deku(reader = "custom::rd_xor(deku::reader)")]
    pub x: u8,
    pub z: u8,
}
impl Conv for CustomR {
    fn tv(&self) -> Val { Val::Rec(vec![self.x.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CustomR { x: Conv::fv(&i[0]), z: Conv::fv(&i[1]) } }
}
pub fn d_CustomR() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CustomR", kind: Kind::Struct { fields: vec![FieldD { reader: Some(custom::m_rd_xor), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CustomW {
    #[deku(writer = "custom::wr_xor(deku::writer, x)")]
    pub x: u8,
    pub z: u8,
}
impl Conv for CustomW {
    fn tv(&self) -> Val { Val::Rec(vec![self.x.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CustomW { x: Conv::fv(&i[0]), z: Conv::fv(&i[1]) } }
}
pub fn d_CustomW() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CustomW", kind: Kind::Struct { fields: vec![FieldD { writer: Some(custom::m_wr_xor), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct CustomP {
    #[deku(pad_bytes_before = "1", pad_bits_after = "4", magic = b"\x33", reader = "custom::rd_xor(deku::reader)", writer = "custom::wr_xor(deku::writer, x)")]
    pub x: u8,
    #[deku(bits = 4)]
    pub z: u8,
}
impl Conv for CustomP {
    fn tv(&self) -> Val { Val::Rec(vec![self.x.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; CustomP { x: Conv::fv(&i[0]), z: Conv::fv(&i[1]) } }
}
pub fn d_CustomP() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "CustomP", kind: Kind::Struct { fields: vec![FieldD { pad_bytes_before: Some(l(1)), pad_bits_after: Some(l(4)), magic: Some(b"\x33"), reader: Some(custom::m_rd_xor), writer: Some(custom::m_wr_xor), ..FieldD::new("x", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct Mapped {
    #[deku(map = "custom::map_double")]
    pub a: u16,
    #[deku(endian = "big", map = "custom::map_even")]
    pub b: u16,
    pub z: u8,
}
impl Conv for Mapped {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; Mapped { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), z: Conv::fv(&i[2]) } }
}
pub fn d_Mapped() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "Mapped", kind: Kind::Struct { fields: vec![FieldD { map: Some((Ty::Int { w: 8, s: false }, custom::m_map_double)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), map: Some((Ty::Int { w: 16, s: false }, custom::m_map_even)), ..FieldD::new("b", Ty::Int { w: 16, s: false }) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct MapPair {
    #[deku(endian = "big", map = "custom::map_pair")]
    pub a: u16,
    pub n: u8,
    #[deku(endian = "big", bits = "8", count = "n", map = "custom::map_sum")]
    pub s: u32,
    pub z: u8,
}
impl Conv for MapPair {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.n.tv(), self.s.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; MapPair { a: Conv::fv(&i[0]), n: Conv::fv(&i[1]), s: Conv::fv(&i[2]), z: Conv::fv(&i[3]) } }
}
pub fn d_MapPair() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MapPair", kind: Kind::Struct { fields: vec![FieldD { endian: Some(EndianSpec::Lit(E::Be)), map: Some((Ty::Tup(vec![Ty::Int { w: 8, s: false }, Ty::Int { w: 8, s: false }]), custom::m_map_pair)), ..FieldD::new("a", Ty::Int { w: 16, s: false }) }, FieldD { hint: Hint::Range(0, 4), ..FieldD::new("n", Ty::Int { w: 8, s: false }) }, FieldD { endian: Some(EndianSpec::Lit(E::Be)), bits: Some(l(8)), lim: Lim::Count(X::F(1)), map: Some((Ty::Vec(Box::new(Ty::Int { w: 8, s: false })), custom::m_map_sum)), ..FieldD::new("s", Ty::Int { w: 32, s: false }) }, FieldD { ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

#[derive(DekuRead, DekuWrite)]
pub struct MapBitsC {
    #[deku(bits = 4, map = "custom::map_same")]
    pub a: u8,
    #[deku(bits = 4, cond = "((*a as i128) > 3)", default = "(2) as u8", map = "custom::map_same")]
    pub b: u8,
    #[deku(assert = "((*z as i128) < 250)", map = "custom::map_same")]
    pub z: u8,
}
impl Conv for MapBitsC {
    fn tv(&self) -> Val { Val::Rec(vec![self.a.tv(), self.b.tv(), self.z.tv()]) }
    fn fv(v: &Val) -> Self { let i = v.items(); let _ = i; MapBitsC { a: Conv::fv(&i[0]), b: Conv::fv(&i[1]), z: Conv::fv(&i[2]) } }
}
pub fn d_MapBitsC() -> &'static Decl {
    static D: OnceLock<Decl> = OnceLock::new();
    D.get_or_init(|| Decl { name: "MapBitsC", kind: Kind::Struct { fields: vec![FieldD { bits: Some(l(4)), map: Some((Ty::Int { w: 8, s: false }, custom::m_map_same)), ..FieldD::new("a", Ty::Int { w: 8, s: false }) }, FieldD { bits: Some(l(4)), cond: Some(b(Bop::Gt, X::F(0), l(3))), default: Some(Default_::Int(b(Bop::And, l(2), l(0xff)))), map: Some((Ty::Int { w: 8, s: false }, custom::m_map_same)), ..FieldD::new("b", Ty::Int { w: 8, s: false }) }, FieldD { assert: Some(b(Bop::Lt, X::F(2), l(250))), map: Some((Ty::Int { w: 8, s: false }, custom::m_map_same)), ..FieldD::new("z", Ty::Int { w: 8, s: false }) }], seek: None }, endian: None, order: None, magic: None, ctx_default: None })
}

pub fn entries() -> Vec<Entry> {
    let mut v = vec![];
    v.push(Entry { name: "CLeaf", tags: &["endian", "size", "ty_int"], decl: d_CLeaf, ops: ops::<CLeaf>(), deku_id: None, size_bits: Some((<CLeaf as DekuSize>::SIZE_BITS, 24)) });
    v.push(Entry { name: "Cond", tags: &["cond", "endian", "ty_int", "ty_opt"], decl: d_Cond, ops: ops::<Cond>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CondD", tags: &["cond", "default", "ty_int", "ty_opt"], decl: d_CondD, ops: ops::<CondD>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CondInt", tags: &["cond", "endian", "ty_int"], decl: d_CondInt, ops: ops::<CondInt>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CondBits", tags: &["bits", "cond", "ty_int", "ty_opt"], decl: d_CondBits, ops: ops::<CondBits>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CondNest", tags: &["cond", "count", "endian", "ty_int", "ty_list", "ty_named", "ty_opt"], decl: d_CondNest, ops: ops::<CondNest>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CondChain", tags: &["cond", "endian", "ty_int", "ty_opt"], decl: d_CondChain, ops: ops::<CondChain>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SkipA", tags: &["size", "skip", "ty_int"], decl: d_SkipA, ops: ops::<SkipA>(), deku_id: None, size_bits: Some((<SkipA as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "SkipD", tags: &["default", "size", "skip", "ty_int"], decl: d_SkipD, ops: ops::<SkipD>(), deku_id: None, size_bits: Some((<SkipD as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "SkipO", tags: &["default", "size", "skip", "ty_int", "ty_list", "ty_opt"], decl: d_SkipO, ops: ops::<SkipO>(), deku_id: None, size_bits: Some((<SkipO as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "SkipC", tags: &["cond", "default", "skip", "ty_int"], decl: d_SkipC, ops: ops::<SkipC>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SkipR", tags: &["default", "skip", "ty_int"], decl: d_SkipR, ops: ops::<SkipR>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SkipW", tags: &["skip", "ty_int"], decl: d_SkipW, ops: ops::<SkipW>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SkipRC", tags: &["cond", "default", "skip", "ty_int"], decl: d_SkipRC, ops: ops::<SkipRC>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SkipWC", tags: &["cond", "skip", "ty_int"], decl: d_SkipWC, ops: ops::<SkipWC>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SkipBits", tags: &["bits", "size", "skip", "ty_int"], decl: d_SkipBits, ops: ops::<SkipBits>(), deku_id: None, size_bits: Some((<SkipBits as DekuSize>::SIZE_BITS, 8)) });
    v.push(Entry { name: "SkipPad", tags: &["pad", "size", "skip", "ty_int"], decl: d_SkipPad, ops: ops::<SkipPad>(), deku_id: None, size_bits: Some((<SkipPad as DekuSize>::SIZE_BITS, 40)) });
    v.push(Entry { name: "SkipSize", tags: &["bits", "default", "endian", "size", "skip", "ty_int", "ty_list", "ty_opt"], decl: d_SkipSize, ops: ops::<SkipSize>(), deku_id: None, size_bits: Some((<SkipSize as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "SkipSizeB", tags: &["bytes", "endian", "magic", "size", "skip", "ty_int"], decl: d_SkipSizeB, ops: ops::<SkipSizeB>(), deku_id: None, size_bits: Some((<SkipSizeB as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "SkipSizeE", tags: &["endian", "enum", "size", "skip", "ty_int", "ty_list"], decl: d_SkipSizeE, ops: ops::<SkipSizeE>(), deku_id: Some(deku_id::<SkipSizeE, u8>), size_bits: Some((<SkipSizeE as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "CondPad", tags: &["cond", "pad", "ty_int", "ty_opt"], decl: d_CondPad, ops: ops::<CondPad>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "Temp", tags: &["count", "temp", "temp_value", "ty_int", "ty_list"], decl: d_Temp, ops: ops::<Temp>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "Temp16", tags: &["bytes_read", "endian", "temp", "temp_value", "ty_int", "ty_list"], decl: d_Temp16, ops: ops::<Temp16>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "TempOnly", tags: &["count", "temp", "ty_int", "ty_list"], decl: d_TempOnly, ops: ops::<TempOnly>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "TempBits", tags: &["bits", "count", "temp", "temp_value", "ty_int", "ty_list"], decl: d_TempBits, ops: ops::<TempBits>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "TempTwo", tags: &["count", "endian", "temp", "temp_value", "ty_int", "ty_list"], decl: d_TempTwo, ops: ops::<TempTwo>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "TempLsb", tags: &["bits", "count", "order", "temp", "temp_value", "ty_int", "ty_list"], decl: d_TempLsb, ops: ops::<TempLsb>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "TempTup", tags: &["count", "endian", "temp", "temp_value", "ty_int", "ty_list"], decl: d_TempTup, ops: ops::<TempTup>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "TempE", tags: &["count", "endian", "enum", "temp", "temp_value", "ty_int", "ty_list"], decl: d_TempE, ops: ops::<TempE>(), deku_id: Some(deku_id::<TempE, u8>), size_bits: None });
    v.push(Entry { name: "Upd", tags: &["count", "ty_int", "ty_list", "update"], decl: d_Upd, ops: ops::<Upd>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "Upd2", tags: &["count", "endian", "ty_int", "ty_list", "update"], decl: d_Upd2, ops: ops::<Upd2>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "UpdSum", tags: &["size", "ty_int", "update"], decl: d_UpdSum, ops: ops::<UpdSum>(), deku_id: None, size_bits: Some((<UpdSum as DekuSize>::SIZE_BITS, 24)) });
    v.push(Entry { name: "UpdNeg", tags: &["size", "ty_int", "update"], decl: d_UpdNeg, ops: ops::<UpdNeg>(), deku_id: None, size_bits: Some((<UpdNeg as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "UpdTup", tags: &["count", "ty_int", "ty_list", "update"], decl: d_UpdTup, ops: ops::<UpdTup>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "UpdBits", tags: &["bits", "count", "ty_int", "ty_list", "update"], decl: d_UpdBits, ops: ops::<UpdBits>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "UpdChain", tags: &["count", "endian", "ty_int", "ty_list", "update"], decl: d_UpdChain, ops: ops::<UpdChain>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "EUpdChain", tags: &["count", "endian", "enum", "id_pat", "ty_int", "ty_list", "update"], decl: d_EUpdChain, ops: ops::<EUpdChain>(), deku_id: Some(deku_id::<EUpdChain, u8>), size_bits: None });
    v.push(Entry { name: "UpdSkip", tags: &["count", "default", "skip", "ty_int", "ty_list", "update"], decl: d_UpdSkip, ops: ops::<UpdSkip>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "Assert", tags: &["assert", "endian", "size", "ty_int"], decl: d_Assert, ops: ops::<Assert>(), deku_id: None, size_bits: Some((<Assert as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "AssertEq", tags: &["assert_eq", "bits", "size", "ty_int"], decl: d_AssertEq, ops: ops::<AssertEq>(), deku_id: None, size_bits: Some((<AssertEq as DekuSize>::SIZE_BITS, 24)) });
    v.push(Entry { name: "AssertEqF", tags: &["assert_eq", "size", "ty_int"], decl: d_AssertEqF, ops: ops::<AssertEqF>(), deku_id: None, size_bits: Some((<AssertEqF as DekuSize>::SIZE_BITS, 24)) });
    v.push(Entry { name: "AssertVec", tags: &["assert", "count", "ty_int", "ty_list"], decl: d_AssertVec, ops: ops::<AssertVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AssertC", tags: &["assert", "cond", "default", "ty_int"], decl: d_AssertC, ops: ops::<AssertC>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AssertE", tags: &["assert", "assert_eq", "enum", "id_pat", "size", "ty_int"], decl: d_AssertE, ops: ops::<AssertE>(), deku_id: Some(deku_id::<AssertE, u8>), size_bits: Some((<AssertE as DekuSize>::SIZE_BITS, 16)) });
    v.push(Entry { name: "Magic", tags: &["endian", "magic", "size", "ty_int"], decl: d_Magic, ops: ops::<Magic>(), deku_id: None, size_bits: Some((<Magic as DekuSize>::SIZE_BITS, 56)) });
    v.push(Entry { name: "MagicF", tags: &["endian", "magic", "size", "ty_int"], decl: d_MagicF, ops: ops::<MagicF>(), deku_id: None, size_bits: Some((<MagicF as DekuSize>::SIZE_BITS, 80)) });
    v.push(Entry { name: "MagicB", tags: &["bits", "magic", "size", "ty_int"], decl: d_MagicB, ops: ops::<MagicB>(), deku_id: None, size_bits: Some((<MagicB as DekuSize>::SIZE_BITS, 24)) });
    v.push(Entry { name: "MagicLsb", tags: &["bits", "magic", "order", "size", "ty_int"], decl: d_MagicLsb, ops: ops::<MagicLsb>(), deku_id: None, size_bits: Some((<MagicLsb as DekuSize>::SIZE_BITS, 48)) });
    v.push(Entry { name: "MagicC", tags: &["cond", "magic", "ty_int", "ty_opt"], decl: d_MagicC, ops: ops::<MagicC>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "MagicLong", tags: &["magic", "size", "ty_int"], decl: d_MagicLong, ops: ops::<MagicLong>(), deku_id: None, size_bits: Some((<MagicLong as DekuSize>::SIZE_BITS, 328)) });
    v.push(Entry { name: "MagicIn", tags: &["magic", "size", "ty_int"], decl: d_MagicIn, ops: ops::<MagicIn>(), deku_id: None, size_bits: Some((<MagicIn as DekuSize>::SIZE_BITS, 24)) });
    v.push(Entry { name: "MagicV", tags: &["cond", "count", "magic", "ty_int", "ty_list", "ty_named", "ty_opt"], decl: d_MagicV, ops: ops::<MagicV>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "MagicE", tags: &["enum", "magic", "size", "ty_int"], decl: d_MagicE, ops: ops::<MagicE>(), deku_id: Some(deku_id::<MagicE, u8>), size_bits: Some((<MagicE as DekuSize>::SIZE_BITS, 48)) });
    v.push(Entry { name: "Pads", tags: &["bits", "pad", "size", "ty_int"], decl: d_Pads, ops: ops::<Pads>(), deku_id: None, size_bits: Some((<Pads as DekuSize>::SIZE_BITS, 56)) });
    v.push(Entry { name: "PadsLsb", tags: &["bits", "order", "pad", "size", "ty_int"], decl: d_PadsLsb, ops: ops::<PadsLsb>(), deku_id: None, size_bits: Some((<PadsLsb as DekuSize>::SIZE_BITS, 56)) });
    v.push(Entry { name: "PadsFLsb", tags: &["bits", "order", "pad", "size", "ty_int"], decl: d_PadsFLsb, ops: ops::<PadsFLsb>(), deku_id: None, size_bits: Some((<PadsFLsb as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "PadsFMsb", tags: &["bits", "order", "pad", "size", "ty_int"], decl: d_PadsFMsb, ops: ops::<PadsFMsb>(), deku_id: None, size_bits: Some((<PadsFMsb as DekuSize>::SIZE_BITS, 24)) });
    v.push(Entry { name: "PadX", tags: &["endian", "pad", "ty_int"], decl: d_PadX, ops: ops::<PadX>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "PadNeg", tags: &["pad", "ty_int"], decl: d_PadNeg, ops: ops::<PadNeg>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "PadAlign", tags: &["count", "endian", "pad", "ty_int", "ty_list"], decl: d_PadAlign, ops: ops::<PadAlign>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "PadBig", tags: &["bits", "pad", "size", "ty_int"], decl: d_PadBig, ops: ops::<PadBig>(), deku_id: None, size_bits: Some((<PadBig as DekuSize>::SIZE_BITS, 808)) });
    v.push(Entry { name: "PadEnd", tags: &["pad", "size", "ty_int"], decl: d_PadEnd, ops: ops::<PadEnd>(), deku_id: None, size_bits: Some((<PadEnd as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "PadVar", tags: &["endian", "enum", "pad", "size", "ty_int"], decl: d_PadVar, ops: ops::<PadVar>(), deku_id: Some(deku_id::<PadVar, u8>), size_bits: Some((<PadVar as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "Offs", tags: &["endian", "off", "reader", "ty_int", "writer"], decl: d_Offs, ops: ops::<Offs>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffCount", tags: &["cond", "count", "default", "endian", "off", "ty_int", "ty_list"], decl: d_OffCount, ops: ops::<OffCount>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffAssert", tags: &["assert", "count", "off", "ty_int", "ty_list"], decl: d_OffAssert, ops: ops::<OffAssert>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffPad", tags: &["assert", "count", "magic", "off", "pad", "ty_int", "ty_list"], decl: d_OffPad, ops: ops::<OffPad>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AsCtxNone", tags: &["bits", "bits_read", "bytes", "count", "read_all", "ty_arr", "ty_int", "ty_list"], decl: d_AsCtxNone, ops: ops::<AsCtxNone>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AsCtxLittle", tags: &["bits", "bits_read", "bytes", "count", "endian", "read_all", "ty_arr", "ty_int", "ty_list"], decl: d_AsCtxLittle, ops: ops::<AsCtxLittle>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AsCtxBig", tags: &["bits", "bits_read", "bytes", "count", "endian", "read_all", "ty_arr", "ty_int", "ty_list"], decl: d_AsCtxBig, ops: ops::<AsCtxBig>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AsCtxEnd", tags: &["bits", "bytes", "count", "endian", "ty_int", "ty_list"], decl: d_AsCtxEnd, ops: ops::<AsCtxEnd>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "AsCtxOrd", tags: &["bits", "count", "endian", "order", "ty_int", "ty_list"], decl: d_AsCtxOrd, ops: ops::<AsCtxOrd>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffBits", tags: &["bits", "bits_read", "count", "off", "ty_int", "ty_list"], decl: d_OffBits, ops: ops::<OffBits>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffCtx", tags: &["count", "ctx", "endian", "off", "ty_int", "ty_list", "ty_named"], decl: d_OffCtx, ops: ops::<OffCtx>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffMid", tags: &["assert", "bits", "count", "endian", "off", "ty_int", "ty_list"], decl: d_OffMid, ops: ops::<OffMid>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffMidEq", tags: &["assert_eq", "bits", "off", "size", "ty_int"], decl: d_OffMidEq, ops: ops::<OffMidEq>(), deku_id: None, size_bits: Some((<OffMidEq as DekuSize>::SIZE_BITS, 24)) });
    v.push(Entry { name: "OffMidCond", tags: &["bits", "cond", "count", "default", "off", "skip", "ty_int", "ty_list"], decl: d_OffMidCond, ops: ops::<OffMidCond>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffMidCtx", tags: &["bits", "cond", "count", "ctx", "default", "off", "skip", "ty_int", "ty_list", "ty_named"], decl: d_OffMidCtx, ops: ops::<OffMidCtx>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffMidLsb", tags: &["assert", "bits", "cond", "count", "ctx", "default", "off", "skip", "ty_int", "ty_list", "ty_named"], decl: d_OffMidLsb, ops: ops::<OffMidLsb>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffMidVar", tags: &["assert", "bits", "cond", "count", "ctx", "default", "enum", "off", "skip", "ty_int", "ty_list", "ty_named"], decl: d_OffMidVar, ops: ops::<OffMidVar>(), deku_id: Some(deku_id::<OffMidVar, u8>), size_bits: None });
    v.push(Entry { name: "OffTempl", tags: &["cond", "count", "endian", "off", "ty_int", "ty_list", "ty_named", "ty_opt"], decl: d_OffTempl, ops: ops::<OffTempl>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffIn", tags: &["count", "off", "ty_int", "ty_list"], decl: d_OffIn, ops: ops::<OffIn>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffNested", tags: &["count", "off", "ty_arr", "ty_int", "ty_list", "ty_named"], decl: d_OffNested, ops: ops::<OffNested>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffUntil", tags: &["endian", "off", "ty_int", "ty_list", "until"], decl: d_OffUntil, ops: ops::<OffUntil>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffDef", tags: &["default", "endian", "off", "skip", "ty_int"], decl: d_OffDef, ops: ops::<OffDef>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffDefC", tags: &["bits", "cond", "default", "off", "ty_int", "ty_opt"], decl: d_OffDefC, ops: ops::<OffDefC>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffBytes", tags: &["bytes_read", "endian", "off", "ty_int", "ty_list"], decl: d_OffBytes, ops: ops::<OffBytes>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffBitsR", tags: &["bits_read", "endian", "off", "ty_int", "ty_list"], decl: d_OffBitsR, ops: ops::<OffBitsR>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffEq", tags: &["assert_eq", "endian", "off", "size", "ty_int"], decl: d_OffEq, ops: ops::<OffEq>(), deku_id: None, size_bits: Some((<OffEq as DekuSize>::SIZE_BITS, 32)) });
    v.push(Entry { name: "OffEqB", tags: &["assert_eq", "count", "off", "ty_int", "ty_list"], decl: d_OffEqB, ops: ops::<OffEqB>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekS", tags: &["endian", "seek", "ty_int"], decl: d_SeekS, ops: ops::<SeekS>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekC", tags: &["seek", "ty_int"], decl: d_SeekC, ops: ops::<SeekC>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekCN", tags: &["endian", "seek", "ty_int"], decl: d_SeekCN, ops: ops::<SeekCN>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekE", tags: &["seek", "ty_int"], decl: d_SeekE, ops: ops::<SeekE>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekR", tags: &["endian", "seek", "ty_int"], decl: d_SeekR, ops: ops::<SeekR>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekX", tags: &["seek", "ty_int"], decl: d_SeekX, ops: ops::<SeekX>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekXS", tags: &["seek", "ty_int"], decl: d_SeekXS, ops: ops::<SeekXS>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekXE", tags: &["seek", "ty_int"], decl: d_SeekXE, ops: ops::<SeekXE>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekBits", tags: &["bits", "seek", "ty_int"], decl: d_SeekBits, ops: ops::<SeekBits>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekTop", tags: &["seek", "ty_int"], decl: d_SeekTop, ops: ops::<SeekTop>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekTopR", tags: &["seek", "ty_int"], decl: d_SeekTopR, ops: ops::<SeekTopR>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekTopC", tags: &["seek", "ty_int"], decl: d_SeekTopC, ops: ops::<SeekTopC>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekTopE", tags: &["seek", "ty_int"], decl: d_SeekTopE, ops: ops::<SeekTopE>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekIn", tags: &["seek", "ty_int"], decl: d_SeekIn, ops: ops::<SeekIn>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekVec", tags: &["count", "seek", "ty_int", "ty_list", "ty_named"], decl: d_SeekVec, ops: ops::<SeekVec>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekVecB", tags: &["bytes_read", "seek", "ty_int", "ty_list", "ty_named"], decl: d_SeekVecB, ops: ops::<SeekVecB>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekVecA", tags: &["read_all", "seek", "ty_int", "ty_list", "ty_named"], decl: d_SeekVecA, ops: ops::<SeekVecA>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekIn2", tags: &["seek", "ty_int"], decl: d_SeekIn2, ops: ops::<SeekIn2>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekVecA2", tags: &["read_all", "seek", "ty_int", "ty_list", "ty_named"], decl: d_SeekVecA2, ops: ops::<SeekVecA2>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekIn3", tags: &["default_variant", "endian", "enum", "seek", "ty_int"], decl: d_SeekIn3, ops: ops::<SeekIn3>(), deku_id: Some(deku_id::<SeekIn3, u8>), size_bits: None });
    v.push(Entry { name: "SeekVecA3", tags: &["default_variant", "endian", "read_all", "seek", "ty_int", "ty_list", "ty_named"], decl: d_SeekVecA3, ops: ops::<SeekVecA3>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekIn4", tags: &["seek", "ty_int"], decl: d_SeekIn4, ops: ops::<SeekIn4>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekVecA4", tags: &["read_all", "seek", "ty_int", "ty_list", "ty_named"], decl: d_SeekVecA4, ops: ops::<SeekVecA4>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekSetA", tags: &["read_all", "seek", "ty_int", "ty_list", "ty_named", "unordered"], decl: d_SeekSetA, ops: ops::<SeekSetA>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekIn5", tags: &["seek", "ty_int"], decl: d_SeekIn5, ops: ops::<SeekIn5>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekIn6", tags: &["seek", "ty_int"], decl: d_SeekIn6, ops: ops::<SeekIn6>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekBackV", tags: &["count", "seek", "ty_int", "ty_list", "ty_named"], decl: d_SeekBackV, ops: ops::<SeekBackV>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekBackW", tags: &["count", "seek", "ty_int", "ty_list", "ty_named"], decl: d_SeekBackW, ops: ops::<SeekBackW>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekBackS", tags: &["count", "seek", "ty_int", "ty_list", "ty_named", "unordered"], decl: d_SeekBackS, ops: ops::<SeekBackS>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekBackM", tags: &["count", "seek", "ty_int", "ty_list", "ty_named", "unordered"], decl: d_SeekBackM, ops: ops::<SeekBackM>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekHuge", tags: &["endian", "seek", "ty_int"], decl: d_SeekHuge, ops: ops::<SeekHuge>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekHuge2", tags: &["endian", "seek", "ty_int"], decl: d_SeekHuge2, ops: ops::<SeekHuge2>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekPad", tags: &["bits", "pad", "seek", "ty_int"], decl: d_SeekPad, ops: ops::<SeekPad>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekOff", tags: &["count", "off", "seek", "ty_int", "ty_list"], decl: d_SeekOff, ops: ops::<SeekOff>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffSeek", tags: &["assert", "assert_eq", "endian", "off", "seek", "ty_int"], decl: d_OffSeek, ops: ops::<OffSeek>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffSeekR", tags: &["assert", "bits", "endian", "off", "seek", "ty_int"], decl: d_OffSeekR, ops: ops::<OffSeekR>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffSeekCtx", tags: &["assert", "bits", "cond", "count", "ctx", "default", "off", "seek", "skip", "ty_int", "ty_list", "ty_named"], decl: d_OffSeekCtx, ops: ops::<OffSeekCtx>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffSeekSkip", tags: &["assert", "cond", "count", "default", "endian", "off", "seek", "skip", "ty_int", "ty_list"], decl: d_OffSeekSkip, ops: ops::<OffSeekSkip>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "OffSeekPad", tags: &["assert_eq", "count", "off", "pad", "seek", "ty_int", "ty_list"], decl: d_OffSeekPad, ops: ops::<OffSeekPad>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "SeekE2", tags: &["enum", "seek", "ty_int"], decl: d_SeekE2, ops: ops::<SeekE2>(), deku_id: Some(deku_id::<SeekE2, u8>), size_bits: None });
    v.push(Entry { name: "Custom", tags: &["reader", "ty_int", "writer"], decl: d_Custom, ops: ops::<Custom>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CustomB", tags: &["bits", "reader", "ty_int", "writer"], decl: d_CustomB, ops: ops::<CustomB>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CustomV", tags: &["reader", "ty_int", "ty_list", "writer"], decl: d_CustomV, ops: ops::<CustomV>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CustomC", tags: &["cond", "default", "reader", "ty_int", "writer"], decl: d_CustomC, ops: ops::<CustomC>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CustomR", tags: &["reader", "ty_int"], decl: d_CustomR, ops: ops::<CustomR>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CustomW", tags: &["ty_int", "writer"], decl: d_CustomW, ops: ops::<CustomW>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "CustomP", tags: &["bits", "magic", "pad", "reader", "ty_int", "writer"], decl: d_CustomP, ops: ops::<CustomP>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "Mapped", tags: &["endian", "map", "ty_int"], decl: d_Mapped, ops: ops::<Mapped>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "MapPair", tags: &["bits", "count", "endian", "map", "ty_int"], decl: d_MapPair, ops: ops::<MapPair>(), deku_id: None, size_bits: None });
    v.push(Entry { name: "MapBitsC", tags: &["assert", "bits", "cond", "default", "map", "ty_int"], decl: d_MapBitsC, ops: ops::<MapBitsC>(), deku_id: None, size_bits: None });
    v
}
