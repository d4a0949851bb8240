#!/usr/bin/env python3
"""What emits the zoo: derive types, their schemas for the reference model, and the list of entries.

    zoo.py          rewrites zoo_*/src/gen.rs (committed)
    zoo.py --fresh SEED N DIR    a crate of N random types
"""
import random
import sys
from pathlib import Path

# ------------------------------------------------------------------ types

class T:
    def __init__(self, rs, md, **k):
        self.rs, self.md = rs, md
        self.kind = k.get("kind", "other")
        self.w = k.get("w")
        self.s = k.get("s", False)
        self.size = k.get("size")        # DekuSize in bits, or None
        self.args = k.get("args")        # None: any; else the exact extra ctx it takes
        self.hash = k.get("hash", False)
        self.decl = k.get("decl")
        self.n = k.get("n")
        self.inner = k.get("inner", [])
        self.unordered = k.get("unordered", False) or any(i.unordered for i in self.inner)
        self.dflt = k.get("dflt", False)  # has Default

def I(n):
    w = {"usize": 64, "isize": 64}.get(n) or int(n[1:])
    s = n[0] == "i"
    return T(n, f"Ty::Int {{ w: {w}, s: {str(s).lower()} }}", kind="int", w=w, s=s, size=w, hash=True, dflt=True)

U8, U16, U32, U64, U128 = (I(f"u{n}") for n in (8, 16, 32, 64, 128))
I8, I16, I32, I64, I128 = (I(f"i{n}") for n in (8, 16, 32, 64, 128))
USIZE, ISIZE = I("usize"), I("isize")
INTS = [U8, U16, U32, U64, U128, I8, I16, I32, I64, I128]

def NZ(n):
    w = {"usize": 64, "isize": 64}.get(n) or int(n[1:])
    s = n[0] == "i"
    rs = "std::num::NonZero" + (n.capitalize())
    return T(rs, f"Ty::NonZero {{ w: {w}, s: {str(s).lower()} }}", kind="nz", w=w, s=s, hash=True)

F32 = T("f32", "Ty::Float { w: 32 }", kind="float", w=32, size=32, dflt=True)
F64 = T("f64", "Ty::Float { w: 64 }", kind="float", w=64, size=64, dflt=True)
BOOL = T("bool", "Ty::Bool", kind="bool", w=8, size=8, hash=True, dflt=True)
UNIT = T("()", "Ty::Unit", kind="unit", dflt=True, hash=True)
CSTR = T("std::ffi::CString", "Ty::CStr", kind="cstr", dflt=True)
IP4 = T("std::net::Ipv4Addr", "Ty::Int { w: 32, s: false }", kind="ip", w=32, hash=True)
IP6 = T("std::net::Ipv6Addr", "Ty::Int { w: 128, s: false }", kind="ip", w=128, hash=True)

def ARR(t, n):
    return T(f"[{t.rs}; {n}]", f"Ty::Arr(Box::new({t.md}), {n})", kind="arr", n=n, inner=[t], hash=t.hash,
             size=None if t.size is None else t.size * n, dflt=t.dflt and n <= 32)
def _list(rs, t):
    return T(rs % t.rs, f"Ty::Vec(Box::new({t.md}))", kind="list", inner=[t], dflt=rs.startswith(("Vec", "Box")))
def VEC(t): return _list("Vec<%s>", t)
def BOXS(t): return _list("Box<[%s]>", t)
def ARCS(t): return _list("std::sync::Arc<[%s]>", t)
def SET(t): return T(f"std::collections::HashSet<{t.rs}>", f"Ty::Set(Box::new({t.md}))", kind="list", inner=[t], unordered=True, dflt=True)
def MAP(k, v): return T(f"std::collections::HashMap<{k.rs}, {v.rs}>", f"Ty::Map(Box::new({k.md}), Box::new({v.md}))", kind="list", inner=[k, v], unordered=True, dflt=True)
def OPT(t): return T(f"Option<{t.rs}>", f"Ty::Opt(Box::new({t.md}))", kind="opt", inner=[t], dflt=True, w=t.w)
def TUP(*ts):
    size = 0
    for t in ts:
        size = None if size is None or t.size is None else size + t.size
    return T("(" + ", ".join(t.rs for t in ts) + ",)", "Ty::Tup(vec![" + ", ".join(t.md for t in ts) + "])", kind="tup",
             inner=list(ts), size=size, hash=all(t.hash for t in ts), dflt=all(t.dflt for t in ts))
def _wrap(rs, t, **k):
    return T(rs % t.rs, t.md, kind=t.kind, inner=[t], w=t.w, s=t.s, decl=t.decl, args=t.args, dflt=t.dflt, **k)
def BOX(t): return _wrap("Box<%s>", t)
def ARC(t): return _wrap("std::sync::Arc<%s>", t)
def COW(t): return _wrap("std::borrow::Cow<'static, %s>", t)
def N(d):
    return T(d.name, f"Ty::Named(d_{d.name})", kind="named", decl=d, size=d.size_bits, unordered=d.unordered)

# ------------------------------------------------------------------ expressions

class X:
    def __init__(self, op, *a): self.op, self.a = op, a
    def _b(self, op, o, r=False):
        o = o if isinstance(o, X) else L(o)
        return X("b", op, *((o, self) if r else (self, o)))
    def __add__(s, o): return s._b("Add", o)
    def __sub__(s, o): return s._b("Sub", o)
    def __mul__(s, o): return s._b("Mul", o)
    def __mod__(s, o): return s._b("Rem", o)
    def __floordiv__(s, o): return s._b("Div", o)
    def __and__(s, o): return s._b("And", o)
    def eq(s, o): return s._b("Eq", o)
    def ne(s, o): return s._b("Ne", o)
    def lt(s, o): return s._b("Lt", o)
    def le(s, o): return s._b("Le", o)
    def gt(s, o): return s._b("Gt", o)
    def ge(s, o): return s._b("Ge", o)
    def land(s, o): return s._b("LAnd", o)
    def lor(s, o): return s._b("LOr", o)

def L(n): return X("l", n)
def F(n): return X("f", n)
def C(n): return X("c", n)
def LEN(n): return X("len", n)
def SOME(n): return X("some", n)
BITOFF, BYTEOFF, ELEM = X("bitoff"), X("byteoff"), X("elem")
def ELEMAT(n): return X("elemat", n)

OPS = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Rem": "%", "And": "&", "Eq": "==", "Ne": "!=", "Lt": "<", "Le": "<=",
       "Gt": ">", "Ge": ">=", "LAnd": "&&", "LOr": "||"}
BOOLOPS = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge", "LAnd", "LOr"}

def X_(e): return e if isinstance(e, X) else L(e)

class Scope:
    def __init__(self, fields, ctx): self.fields, self.ctx = fields, ctx
    def fi(self, n): return [f.name for f in self.fields].index(n)
    def ft(self, n): return self.fields[self.fi(n)].ty
    def ci(self, n): return [c[0] for c in self.ctx].index(n)

def rs(e, sc, mode="ref"):
    o = e.op
    if o == "l": return str(e.a[0])
    if o == "f":
        t = sc.ft(e.a[0])
        if mode == "self":
            base = f"self.{e.a[0]}"
        else:
            base = f"*{e.a[0]}"
        if t.kind == "nz":
            return f"({e.a[0]}.get() as i128)"
        if t.rs.startswith(("Box<", "std::sync::Arc<")) and mode != "self":
            base = "*" + base
        return f"({base} as i128)"
    if o == "c": return f"({e.a[0]} as i128)"
    if o == "len": return f"({'self.' if mode == 'self' else ''}{e.a[0]}.len() as i128)"
    if o == "some": return f"({e.a[0]}.is_some() as i128)"
    if o == "bitoff": return "(deku::bit_offset as i128)"
    if o == "byteoff": return "(deku::byte_offset as i128)"
    if o == "elem": return "(*v as i128)"
    if o == "elemat": return f"(v.{getattr(e, 'field', e.a[0])} as i128)"
    op, a, c = e.a
    if op in ("LAnd", "LOr"): return f"({rsb(a, sc, mode)} {OPS[op]} {rsb(c, sc, mode)})"
    return f"({rs(a, sc, mode)} {OPS[op]} {rs(c, sc, mode)})"

def rsb(e, sc, mode="ref"):
    if e.op == "b" and e.a[0] in BOOLOPS: return rs(e, sc, mode)
    return f"({rs(e, sc, mode)} != 0)"

def md(e, sc):
    o = e.op
    if o == "l": return f"l({e.a[0]})"
    if o == "f": return f"X::F({sc.fi(e.a[0])})"
    if o == "c": return f"X::C({sc.ci(e.a[0])})"
    if o == "len": return f"X::Len({sc.fi(e.a[0])})"
    if o == "some": return f"X::IsSome({sc.fi(e.a[0])})"
    if o == "bitoff": return "X::BitOff"
    if o == "byteoff": return "X::ByteOff"
    if o == "elem": return "X::Elem"
    if o == "elemat": return f"X::ElemAt({e.a[0]})"
    op, a, c = e.a
    return f"b(Bop::{op}, {md(a, sc)}, {md(c, sc)})"

# ------------------------------------------------------------------ declarations

def cast(m, ty):
    """`as ty` in the model"""
    bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}.get(ty)
    return f"b(Bop::And, {m}, l({hex((1 << bits) - 1)}))" if bits else m

class Fld:
    def __init__(self, name, ty, **at):
        self.name, self.ty, self.at = name, ty, at

class Var:
    def __init__(self, name, fields=(), id=None, pat=None, default=False, disc=None, tuple_=False, reader=None, writer=None):
        self.reader, self.writer = reader, writer  # for the whole variant; its fields say what they do (vonly)
        self.name, self.fields, self.id, self.pat, self.default, self.disc = name, list(fields), id, pat, default, disc
        self.tuple_ = tuple_

def _ctx_of(d): return d.ctx

class Decl:
    """kind: struct / enum"""
    def __init__(self, name, fields=None, variants=None, tuple_=False, ctx=(), ctx_default=None, endian=None, bit_order=None,
                 magic=None, seek=None, id_type=None, id_ctx=None, bits=None, bytes=None, id_endian=None, id_bit_order=None,
                 size=None, tags=(), entry=True, derives=(), repr_=None):
        self.__dict__.update(locals())
        self.tags = set(tags)
        self.size_bits = None
        self.unordered = any(f.ty.unordered for f in self.all_fields())
        if size or size is None and self.sizable():
            self.size = True
            self.size_bits = self.compute_size()

    def all_fields(self):
        if self.fields is not None: return list(self.fields)
        return [f for v in self.variants for f in v.fields]

    def fsize(self, f):
        n = 0
        if f.at.get("temp"): return 0
        if f.at.get("magic"): n += 8 * len(f.at["magic"])
        for k, m in (("pad_bits_before", 1), ("pad_bytes_before", 8), ("pad_bits_after", 1), ("pad_bytes_after", 8)):
            if k in f.at: n += m * lit(f.at[k])
        if f.at.get("skip") == "all" and "cond" not in f.at: pass
        elif "bits" in f.at: n += lit(f.at["bits"]) * values(f.ty)
        elif "bytes" in f.at: n += 8 * lit(f.at["bytes"]) * values(f.ty)
        else: n += f.ty.size
        return n

    def sizable(self):
        """Is what it is encoded in known from its definition alone?"""
        if self.seek or self.derives or (self.id_type is not None and self.bits is None and self.bytes is None and self.id_type.size is None): return False
        for f in self.all_fields():
            at = f.at
            if any(k in at for k in ("temp", "seek", "reader", "writer", "map", "cond", "vonly", "as_ctx")) or at.get("skip") not in (None, "all"): return False
            if any(k in at and X_(at[k]).op != "l" for k in ("bits", "bytes", "pad_bits_before", "pad_bytes_before", "pad_bits_after", "pad_bytes_after")): return False
            if "bits" in at or "bytes" in at:
                if not plain(f.ty): return False
                if "bytes" in at and "8" in f.ty.rs: return False
            elif at.get("skip") is None and f.ty.size is None: return False
        return not any(v.reader or v.writer for v in self.variants or ())

    def compute_size(self):
        n = 8 * len(self.magic or b"")
        if self.fields is not None:
            return n + sum(self.fsize(f) for f in self.fields)
        if self.id_type is not None:
            n += self.bits if self.bits is not None else 8 * self.bytes if self.bytes is not None else self.id_type.size
            if self.bits is not None or self.bytes is not None: n += (values(self.id_type) - 1) * (self.bits if self.bits is not None else 8 * self.bytes)
        return n + max(sum(self.fsize(f) for f in (v.fields[1:] if v.pat and v.fields and self.id_type else v.fields)) for v in self.variants)

def values(t):
    """how many values a size given to it applies to"""
    if t.kind == "arr": return t.n * values(t.inner[0])
    if t.kind == "tup": return sum(values(i) for i in t.inner)
    return 1

def plain(t):
    return t.kind in ("int", "bool", "nz") or t.kind in ("arr", "tup") and all(plain(i) for i in t.inner)

def lit(e):
    e = X_(e)
    assert e.op == "l"
    return e.a[0]

def opt(s): return "None" if s is None else f"Some({s})"

def endian_md(e, sc):
    if e is None: return "None"
    if e in ("little", "big"): return f"Some(EndianSpec::Lit(E::{'Le' if e == 'little' else 'Be'}))"
    return f"Some(EndianSpec::Ctx({sc.ci(e)}))"

def order_md(e, sc):
    if e is None: return "None"
    if e in ("lsb", "msb"): return f"Some(OrderSpec::Lit(O::{'Lsb' if e == 'lsb' else 'Msb'}))"
    return f"Some(OrderSpec::Ctx({sc.ci(e)}))"

def bstr(b): return 'b"' + "".join(f"\\x{c:02x}" for c in b) + '"'

def q(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

EXPR_I = ["bits", "bytes", "count", "bits_read", "bytes_read", "pad_bits_before", "pad_bytes_before", "pad_bits_after", "pad_bytes_after"]

def num(e, sc):
    e = X_(e)
    if e.op == "f" and sc.ft(e.a[0]).kind == "int" and not sc.ft(e.a[0]).rs.startswith(("Box", "std")): return e.a[0]
    if e.op == "l": return str(e.a[0])
    return rs(e, sc)

def flat_args(d, f, sc):
    """names of the context a field passes on"""
    a = []
    if f.at.get("endian") or d.endian: a.append("endian")
    if "bits" in f.at: a.append("bits")
    if "bytes" in f.at: a.append("bytes")
    if f.at.get("bit_order") or d.bit_order: a.append("order")
    a += ["x"] * len(f.at.get("ctx", ()))
    return a

def check_named(d, f, sc):
    def go(t):
        if t.decl is not None and t.kind == "named":
            c = t.decl
            want = [("endian" if "Endian" in ty else "bits" if "BitSize" in ty else "bytes" if "ByteSize" in ty else "order" if "Order" in ty else "x") for _, ty in c.ctx]
            got = flat_args(d, f, sc)
            if not got and c.ctx_default is not None: return
            assert want == got, f"{d.name}.{f.name}: {c.name} takes {want}, given {got}"
        else:
            for i in t.inner: go(i)
    if "reader" not in f.at:
        go(f.ty)

def field_attrs(d, f, sc, mode):
    at, out = f.at, []
    upd = "self" if mode == "struct" else "self" if mode == "tuple" else "ref"
    if at.get("temp"): out.append("temp")
    if "temp_value" in at:
        tv = X_(at["temp_value"])
        out.append(f"temp_value = {q('(' + rs(tv, sc, 'ref') + ') as ' + f.ty.rs)}")
    moved = at.get("as_ctx", ())  # given as context instead of with their own attribute
    for k in ("endian", "bit_order"):
        if at.get(k) and k not in moved: out.append(f"{k} = {q(at[k])}")
    if moved:
        one = {"endian": lambda v: f"deku::ctx::Endian::{v.capitalize()}", "bit_order": lambda v: f"deku::ctx::Order::{v.capitalize()}0",
               "bits": lambda v: f"deku::ctx::BitSize(({rs(X_(v), sc)}) as usize)", "bytes": lambda v: f"deku::ctx::ByteSize(({rs(X_(v), sc)}) as usize)"}
        out.append(f"ctx = {q(', '.join(one[k](at[k]) for k in ('endian', 'bits', 'bytes', 'bit_order') if k in moved))}")
    for k in ("bits", "bytes"):
        if k in at and k not in moved:
            e = X_(at[k])
            lone = f"{k} = {e.a[0]}" if (e.a[0] + len(f.name) if e.op == "l" else 0) % 3 else f'{k} = "{e.a[0]}"'
            out.append(lone if e.op == "l" else f"{k} = {q('(' + rs(e, sc) + ') as usize')}")
    for k in ("count", "bits_read", "bytes_read"):
        if k in at: out.append(f"{k} = {q(num(at[k], sc))}")
    for k in ("pad_bits_before", "pad_bytes_before", "pad_bits_after", "pad_bytes_after"):
        if k in at:
            out.append(f"{k} = {q(rs(X_(at[k]), sc))}")
    if "until" in at:
        e = at["until"]
        et = f.ty.inner[0].rs if len(f.ty.inner) == 1 else f"({f.ty.inner[0].rs}, {f.ty.inner[1].rs})"
        out.append(f"until = {q('|v: &' + et + '| ' + rsb(e, sc))}")
    if at.get("read_all"): out.append("read_all")
    if "ctx" in at:
        parts = []
        for e, ty in at["ctx"]:
            parts.append(f"({rs(X_(e), sc)}) as {ty}")
        out.append(f"ctx = {q(', '.join(parts))}")
    if at.get("skip") == "all": out.append("skip")
    elif at.get("skip"): out.append(f"skip({at['skip']})")
    if "cond" in at: out.append(f"cond = {q(rsb(at['cond'], sc))}")
    if "default" in at:
        k, e = at["default"]
        t = f.ty.rs if k == "int" else f.ty.inner[0].rs
        v = f"({rs(X_(e), sc)}) as {t}" if f.ty.kind != "bool" else rsb(X_(e), sc)
        if k == "some": v = f"Some({v})"
        out.append(f"default = {q(v)}")
    if "assert" in at: out.append(f"assert = {q(rsb(at['assert'], sc))}")
    if "assert_eq" in at: out.append(f"assert_eq = {q('(' + rs(X_(at['assert_eq']), sc) + ') as ' + f.ty.rs)}")
    if "update" in at: out.append(f"update = {q(rs(at['update'], sc, upd))}")
    if "magic" in at: out.append(f"magic = {bstr(at['magic'])}")
    if "seek" in at:
        k, e = at["seek"]
        out.append("seek_rewind" if k == "rewind" else f"seek_from_{k} = {q(rs(X_(e), sc))}")
    for k in ("map", "reader", "writer"):
        if k in at and "vonly" not in at: out.append(f"{k} = {q(at[k][0])}")
    return out

def field_md(d, f, sc):
    at = f.at
    o = []
    def set_(k, v): o.append(f"{k}: {v}")
    if at.get("endian"): set_("endian", endian_md(at["endian"], sc))
    if at.get("bit_order"): set_("order", order_md(at["bit_order"], sc))
    for k in ("bits", "bytes", "pad_bits_before", "pad_bytes_before", "pad_bits_after", "pad_bytes_after", "cond", "assert", "update"):
        if k in at: set_(k, f"Some({md(X_(at[k]), sc)})")
    for k in ("assert_eq", "temp_value"):
        if k in at: set_(k, f"Some({cast(md(X_(at[k]), sc), f.ty.rs)})")
    for k, n in (("count", "Count"), ("bits_read", "Bits"), ("bytes_read", "Bytes"), ("until", "Until")):
        if k in at: set_("lim", f"Lim::{n}({md(X_(at[k]), sc)})")
    if at.get("read_all"): set_("lim", "Lim::All")
    if "ctx" in at: set_("ctx", "vec![" + ", ".join(cast(md(X_(e), sc), ty) for e, ty in at["ctx"]) + "]")
    if at.get("skip"): set_("skip", "Skip::" + at["skip"].capitalize())
    if "default" in at:
        k, e = at["default"]
        set_("default", f"Some(Default_::{'Int' if k == 'int' else 'Some'}({cast(md(X_(e), sc), f.ty.rs if k == 'int' else f.ty.inner[0].rs)}))")
    if at.get("temp"): set_("temp", "true")
    if "magic" in at: set_("magic", f"Some({bstr(at['magic'])})")
    if "seek" in at:
        k, e = at["seek"]
        set_("seek", "Some(SeekSpec::Rewind)" if k == "rewind" else f"Some(SeekSpec::{k.capitalize()}({md(X_(e), sc)}))")
    if "hint" in at:
        h = at["hint"]
        set_("hint", f"Hint::Range({h[0]}, {h[1]})" if isinstance(h, tuple) else f"Hint::OneOf(vec!{h})")
    if "map" in at:
        _, ty, fn = at["map"]
        set_("map", f"Some(({ty.md}, custom::{fn}))")
    if "reader" in at: set_("reader", f"Some(custom::{at['reader'][1]})")
    if "writer" in at: set_("writer", f"Some(custom::{at['writer'][1]})")
    check_named(d, f, sc)
    return f"FieldD {{ {', '.join(o + ['..FieldD::new(' + q(f.name) + ', ' + f.ty.md + ')'])} }}"

def reads_offset(v):
    if isinstance(v, X): return v.op in ("bitoff", "byteoff") or any(reads_offset(a) for a in v.a)
    if isinstance(v, (list, tuple)): return any(reads_offset(a) for a in v)
    return isinstance(v, str) and "_offset" in v

def tags_of(d):
    t = set(d.tags)
    fs = d.all_fields()
    for f in fs:
        t |= set(f.at) & {"cond", "skip", "temp", "temp_value", "magic", "assert", "assert_eq", "update", "seek", "map", "reader",
                          "writer", "count", "bits_read", "bytes_read", "until", "read_all", "ctx", "bits", "bytes", "default"}
        if any(k.startswith("pad") for k in f.at): t.add("pad")
        if any(reads_offset(v) for v in f.at.values()): t.add("off")
        if f.at.get("bit_order") or d.bit_order: t.add("order")
        if f.at.get("endian") or d.endian: t.add("endian")
        def go(ty):
            t.add("ty_" + ty.kind)
            if ty.rs.startswith(("Box<", "std::sync::Arc<", "std::borrow")): t.add("ty_ptr")
            if ty.kind == "named": t.update(x for x in tags_of(ty.decl) if x not in ("enum", "size", "update"))
            for i in ty.inner: go(i)
        go(f.ty)
    if d.bit_order or d.id_bit_order: t.add("order")
    if d.endian or d.id_endian: t.add("endian")
    if d.unordered: t.add("unordered")
    if d.magic: t.add("magic")
    if d.seek: t.add("seek")
    if d.variants is not None:
        t.add("enum")
        if any(v.default for v in d.variants): t.add("default_variant")
        if any(v.pat for v in d.variants): t.add("id_pat")
        if d.id_ctx: t.add("id_ctx")
    if d.size: t.add("size")
    return t

def emit_decl(d, entries):
    o = []
    top = []
    sc0 = Scope([], d.ctx)
    if d.magic: top.append(f"magic = {bstr(d.magic)}")
    if d.endian: top.append(f"endian = {q(d.endian)}")
    if d.bit_order: top.append(f"bit_order = {q(d.bit_order)}")
    if d.ctx: top.append("ctx = " + q(", ".join(f"{n}: {t}" for n, t in d.ctx)))
    if d.ctx_default is not None: top.append("ctx_default = " + q(", ".join(d.ctx_default[0])))
    if d.seek:
        k, e = d.seek
        top.append("seek_rewind" if k == "rewind" else f"seek_from_{k} = {q(rs(X_(e), sc0))}")
    temp = any(f.at.get("temp") for f in d.all_fields())
    traits = "DekuRead, DekuWrite" + (", DekuSize" if d.size else "")
    der = list(d.derives)
    if temp:
        o.append(f"#[deku_derive({traits})]")
        if der: o.append(f"#[derive({', '.join(der)})]")
    else:
        o.append(f"#[derive({', '.join([traits] + der)})]")
    if d.fields is not None:
        sc = Scope(d.fields, d.ctx)
        if top: o.append(f"#[deku({', '.join(top)})]")
        mode = "tuple" if d.tuple_ else "struct"
        if d.tuple_:
            # fields of a tuple are called field_n in expressions
            for i, f in enumerate(d.fields): f.name = f"field_{i}"
        unit = not d.fields and not d.tuple_
        o.append(f"pub struct {d.name} " + (";" if unit else "(" if d.tuple_ else "{"))
        for f in d.fields:
            at = field_attrs(d, f, sc, mode)
            if d.tuple_: at = [a.replace("self.field_", "self.") for a in at]
            if at: o.append(f"    #[deku({', '.join(at)})]")
            o.append(f"    pub {f.ty.rs}," if d.tuple_ else f"    pub {f.name}: {f.ty.rs},")
        if not unit: o.append(");" if d.tuple_ else "}")
        kept = [f for f in d.fields if not f.at.get("temp")]
        o.append(f"impl Conv for {d.name} {{")
        acc = [f"self.{i}" if d.tuple_ else f"self.{f.name}" for i, f in enumerate(kept)]
        o.append("    fn tv(&self) -> Val { Val::Rec(vec![" + ", ".join(f"{a}.tv()" for a in acc) + "]) }")
        init = [f"Conv::fv(&i[{i}])" if d.tuple_ else f"{f.name}: Conv::fv(&i[{i}])" for i, f in enumerate(kept)]
        lp, rp = ("(", ")") if d.tuple_ else (" {", "}")
        o.append(f"    fn fv(v: &Val) -> Self {{ let i = v.items(); let _ = i; {d.name}{lp} {', '.join(init)} {rp} }}")
        o.append("}")
        seek = "None"
        if d.seek:
            k, e = d.seek
            seek = "Some(SeekSpec::Rewind)" if k == "rewind" else f"Some(SeekSpec::{k.capitalize()}({md(X_(e), sc0)}))"
        kind = "Kind::Struct { fields: vec![" + ", ".join(field_md(d, f, sc) for f in d.fields) + f"], seek: {seek} }}"
    else:
        ids = []
        if d.id_ctx is not None: ids.append(f"id = {q(d.id_ctx[0])}")
        if d.id_type is not None: ids.append(f"id_type = {q(d.id_type.rs)}")
        if d.bits is not None: ids.append(f"bits = {d.bits}")
        if d.bytes is not None: ids.append(f"bytes = {d.bytes}")
        if d.id_endian: ids.append(f"id_endian = {q(d.id_endian)}")
        if d.id_bit_order: ids.append(f"id_bit_order = {q(d.id_bit_order)}")
        o.append(f"#[deku({', '.join(top + ids)})]")
        if d.repr_: o.append(f"#[repr({d.repr_})]")
        o.append(f"pub enum {d.name} {{")
        tv, fv, vmd = [], [], []
        for vi, v in enumerate(d.variants):
            at = []
            if v.id is not None and v.disc is None:
                # numbers, truth values and byte strings may be given as such or within a string
                bare = v.id[0].startswith('b"') or (v.id[0] in ("true", "false") or v.id[0][0].isdigit()) and (vi + len(d.name)) % 2
                at.append(f"id = {v.id[0]}" if bare else f"id = {q(v.id[0])}")
            if v.pat: at.append(f"id_pat = {q(v.pat[0])}")
            if v.default: at.append("default")
            if v.reader: at.append(f"reader = {q(v.reader)}")
            if v.writer: at.append(f"writer = {q(v.writer)}")
            if at: o.append(f"    #[deku({', '.join(at)})]")
            if v.tuple_:
                for i, f in enumerate(v.fields): f.name = f"field_{i}"
            sc = Scope(v.fields, d.ctx)
            body = ""
            if v.fields:
                parts = []
                for f in v.fields:
                    fa = field_attrs(d, f, sc, "variant")
                    s = f"#[deku({', '.join(fa)})] " if fa else ""
                    parts.append(s + (f.ty.rs if v.tuple_ else f"{f.name}: {f.ty.rs}"))
                body = ("(" + ", ".join(parts) + ")") if v.tuple_ else (" { " + ", ".join(parts) + " }")
            disc = f" = {v.disc}" if v.disc is not None else ""
            o.append(f"    {v.name}{body}{disc},")
            kept = [f for f in v.fields if not f.at.get("temp")]
            names = [f.name for f in kept]
            if v.fields:
                pat = ("(" + ", ".join(names) + ")") if v.tuple_ else (" { " + ", ".join(names) + " }")
                init = ("(" + ", ".join(f"Conv::fv(&i[{i}])" for i in range(len(kept))) + ")") if v.tuple_ else \
                    (" { " + ", ".join(f"{n}: Conv::fv(&i[{i}])" for i, n in enumerate(names)) + " }")
            else:
                pat = init = ""
            tv.append(f"{d.name}::{v.name}{pat} => Val::Var({vi}, vec![{', '.join(n + '.tv()' for n in names)}])")
            fv.append(f"Val::Var({vi}, i) => {{ let _ = i; {d.name}::{v.name}{init} }}")
            idm = opt(None if v.id is None else v.id[1])
            patm = opt(None if not v.pat else "vec![" + ", ".join(f"({a}, {c})" for a, c in v.pat[1]) + "]")
            vmd.append(f"VariantD {{ name: {q(v.name)}, id: {idm}, explicit_id: {str(v.id is not None and v.disc is None).lower()}, pat: {patm}, default: {str(v.default).lower()}, fields: vec![" +
                       ", ".join(field_md(d, f, sc) for f in v.fields) + "] }")
        o.append("}")
        o.append(f"impl Conv for {d.name} {{")
        o.append(f"    fn tv(&self) -> Val {{ match self {{ {', '.join(tv)} }} }}")
        o.append(f"    fn fv(v: &Val) -> Self {{ match v {{ {', '.join(fv)}, _ => panic!(\"shape\") }} }}")
        o.append("}")
        if d.id_ctx is not None:
            e = d.id_ctx[1]
            src = f"IdSrc::Ctx({md(e, sc0)})" if not isinstance(e, tuple) else "IdSrc::CtxTup(vec![" + ", ".join(md(x, sc0) for x in e) + "])"
        else:
            src = f"IdSrc::Read {{ ty: {d.id_type.md}, endian: {endian_md(d.id_endian, sc0)}, order: {order_md(d.id_bit_order, sc0)}, bits: {opt(d.bits)}, bytes: {opt(d.bytes)} }}"
        kind = f"Kind::Enum {{ id: {src}, variants: vec![{', '.join(vmd)}] }}"
    cd = opt(None if d.ctx_default is None else "vec![" + ", ".join(str(x) for x in d.ctx_default[1]) + "]")
    o.append(f"pub fn d_{d.name}() -> &'static Decl {{")
    o.append("    static D: OnceLock<Decl> = OnceLock::new();")
    o.append(f"    D.get_or_init(|| Decl {{ name: {q(d.name)}, kind: {kind}, endian: {endian_md(d.endian, sc0)}, order: {order_md(d.bit_order, sc0)}, magic: {opt(bstr(d.magic) if d.magic else None)}, ctx_default: {cd} }})")
    o.append("}")
    if d.entry and (not d.ctx or d.ctx_default is not None):
        did = "None"
        if d.variants is not None and d.id_type is not None:
            did = f"Some(deku_id::<{d.name}, {d.id_type.rs}>)"
        elif d.variants is not None and d.id_ctx is not None and len(d.id_ctx) > 2:
            did = f"Some(deku_id::<{d.name}, {d.id_ctx[2]}>)"
        sz = "None"
        if d.size: sz = f"Some((<{d.name} as DekuSize>::SIZE_BITS, {d.size_bits}))"
        tags = ", ".join(q(t) for t in sorted(tags_of(d)))
        entries.append(f"    v.push(Entry {{ name: {q(d.name)}, tags: &[{tags}], decl: d_{d.name}, ops: ops::<{d.name}>(), deku_id: {did}, size_bits: {sz} }});")
    return "\n".join(o) + "\n"

HEAD = """// @generated by gen_zoo.py
#![allow(clippy::all, unused_parens, unused_variables, dead_code, non_camel_case_types, non_snake_case, unused_imports, unused_mut)]
use deku::prelude::*;
use std::sync::OnceLock;
use vcore::custom;
use vcore::model::*;
use vcore::ops::{deku_id, ops, Entry};
use vcore::val::{Conv, Val};

"""

def emit(decls):
    entries = []
    body = "\n".join(emit_decl(d, entries) for d in decls)
    return HEAD + body + "\npub fn entries() -> Vec<Entry> {\n    let mut v = vec![];\n" + "\n".join(entries) + "\n    v\n}\n"
