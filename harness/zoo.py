"""The types of the zoo"""
import random
import sys
from pathlib import Path
from gen_zoo import *

ORD = ("order", "deku::ctx::Order")
END = ("endian", "deku::ctx::Endian")

# ------------------------------------------------------------------ a: scalars and structure

def zoo_a():
    z = []
    def D(*a, **k):
        d = Decl(*a, **k)
        z.append(d)
        return d
    names = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]
    for e in (None, "little", "big"):
        D(f"Ints{(e or 'native').capitalize()}", [Fld(f"a_{n}", I(n)) for n in names] + [Fld("b", BOOL), Fld("f", F32), Fld("g", F64)],
          endian=e, size=True)
        D(f"IntsF{(e or 'native').capitalize()}", [Fld(f"a_{n}", I(n), **({"endian": e} if e else {})) for n in names], size=True)
    # sizes in bits, unaligned
    for e in (None, "little", "big"):
        for o in (None, "msb", "lsb"):
            fs, i = [], 0
            for n, bits in [("u8", 3), ("u16", 11), ("u8", 1), ("u32", 17), ("u64", 33), ("u16", 16), ("u128", 67), ("u32", 20), ("u8", 8), ("usize", 40), ("u16", 9), ("u8", 7)]:
                fs.append(Fld(f"a{i}", I(n), bits=bits)); i += 1
            D(f"Bits{(e or 'n')[0].upper()}{(o or 'n')[0].upper()}", fs, endian=e, bit_order=o, size=True)
            fs, i = [], 0
            for n, bits in [("i8", 3), ("i16", 11), ("i8", 1), ("i32", 17), ("i64", 33), ("i16", 16), ("i128", 67), ("i32", 20), ("i8", 8), ("isize", 40), ("i16", 9), ("i8", 7)]:
                if e == "big" and o == "lsb" and bits > 8: bits = bits // 8 * 8
                fs.append(Fld(f"a{i}", I(n), bits=bits)); i += 1
            D(f"SBits{(e or 'n')[0].upper()}{(o or 'n')[0].upper()}", fs, endian=e, bit_order=o, size=True)
            # whole types after one unaligned field
            D(f"Unal{(e or 'n')[0].upper()}{(o or 'n')[0].upper()}",
              [Fld("p", U8, bits=5), Fld("a", U16), Fld("b", I32), Fld("c", U64), Fld("d", U128), Fld("e", BOOL), Fld("f", F32),
               Fld("g", ARR(U8, 3)), Fld("h", ARR(U16, 2)), Fld("i", TUP(U8, I16)), Fld("q", U8, bits=3)], endian=e, bit_order=o, size=True)
    # sizes in bytes
    for e in (None, "little", "big"):
        fs, i = [], 0
        for n, by in [("u16", 1), ("u32", 3), ("u64", 5), ("u128", 9), ("u64", 8), ("u32", 2), ("usize", 6), ("u8", 1), ("u128", 16)]:
            fs.append(Fld(f"a{i}", I(n), bytes=by)); i += 1
        D(f"Bytes{(e or 'n')[0].upper()}", fs, endian=e, size=True)
        D(f"BytesU{(e or 'n')[0].upper()}", [Fld("p", U8, bits=3)] + [Fld(f.name, f.ty, **f.at) for f in fs] + [Fld("q", U8, bits=5)], endian=e, size=True)
        fs, i = [], 0
        for n, by in [("i16", 1), ("i32", 3), ("i64", 5), ("i128", 9), ("i64", 8), ("i32", 2), ("isize", 6), ("i128", 16)]:
            fs.append(Fld(f"a{i}", I(n), bytes=by)); i += 1
        D(f"SBytes{(e or 'n')[0].upper()}", fs, endian=e, size=True)
    # per field endian, overriding
    D("Override", [Fld("a", U16), Fld("b", U16, endian="big"), Fld("c", U32, endian="little"), Fld("d", U32), Fld("e", U16, endian="big", bits=12),
                   Fld("f", U8, bits=4)], endian="little", size=True)
    D("OverrideBig", [Fld("a", U16), Fld("b", U16, endian="little"), Fld("c", I64, endian="little", bytes=5), Fld("d", F64, endian="little"), Fld("e", F64)], endian="big", size=True)
    D("OrderFields", [Fld("a", U8, bit_order="lsb", bits=3), Fld("b", U8, bit_order="lsb", bits=5), Fld("c", U8, bits=3), Fld("d", U8, bits=5),
                      Fld("e", U16, bit_order="lsb"), Fld("f", U16, bit_order="lsb", endian="big"), Fld("g", U32, bit_order="msb", endian="little")], size=True)
    # non zero
    for e in (None, "little", "big"):
        D(f"NonZero{(e or 'n')[0].upper()}", [Fld(f"a_{n}", NZ(n)) for n in names], endian=e)
    D("NonZeroBits", [Fld("a", NZ("u8"), bits=3), Fld("b", NZ("u16"), bits=9), Fld("c", NZ("i16"), bits=12), Fld("d", NZ("u32"), bytes=3), Fld("e", NZ("i64"), bits=40)], endian="big")
    D("NonZeroLsb", [Fld("a", NZ("u8"), bits=3), Fld("b", NZ("u16"), bits=9), Fld("c", NZ("u32"), bits=20)], endian="little", bit_order="lsb")
    # other scalars
    D("Strings", [Fld("a", CSTR), Fld("b", CSTR), Fld("n", U8)])
    D("StringFixed", [Fld("n", U8, hint=(1, 9)), Fld("s", CSTR, bytes=F("n")), Fld("t", U16)])
    D("StringFixed4", [Fld("s", CSTR, bytes=4), Fld("t", U8)])
    D("Ips", [Fld("a", IP4), Fld("b", IP6), Fld("c", IP4, endian="big"), Fld("d", IP6, endian="little"), Fld("e", IP4, endian="little")])
    D("Bools", [Fld("a", BOOL), Fld("b", BOOL, bits=1), Fld("c", BOOL, bits=3), Fld("d", U8, bits=4), Fld("e", BOOL)], size=True)
    D("BoolsLsb", [Fld("b", BOOL, bits=1), Fld("c", BOOL, bits=3), Fld("d", U8, bits=4), Fld("e", BOOL)], bit_order="lsb", size=True)
    D("Units", [Fld("a", UNIT), Fld("b", U8), Fld("c", UNIT)])
    D("Floats", [Fld("a", F32), Fld("b", F64), Fld("c", F32, endian="big"), Fld("d", F64, endian="little")], size=True)
    D("FloatUnal", [Fld("p", U8, bits=2), Fld("a", F32), Fld("b", F64, endian="big"), Fld("q", U8, bits=6)], endian="little", size=True)
    # aggregates
    D("Arrays", [Fld("a", ARR(U8, 4)), Fld("b", ARR(U16, 3), endian="big"), Fld("c", ARR(ARR(U8, 2), 3)), Fld("d", ARR(I32, 1)), Fld("e", ARR(U8, 0)), Fld("f", ARR(BOOL, 5))], size=True)
    D("ArrayBits", [Fld("a", ARR(U8, 3), bits=3), Fld("b", ARR(U16, 5), bits=11)], endian="big")
    D("ArrayBitsLsb", [Fld("a", ARR(U8, 3), bits=3), Fld("b", ARR(U16, 5), bits=11)], endian="little", bit_order="lsb")
    D("ArrayBytes", [Fld("a", ARR(U32, 3), bytes=3), Fld("b", ARR(I64, 2), bytes=5)], endian="big")
    D("Tuples", [Fld("a", TUP(U8, U16)), Fld("b", TUP(U8, TUP(I32, BOOL), ARR(U8, 2))), Fld("c", TUP(U8)), Fld("d", TUP(U8, U8, U8, U8, U8, U8, U8, U8, U8, U8, U16))], endian="big", size=True)
    D("TupleMid", [Fld("a", TUP(U8, U16, U8, U32)), Fld("b", TUP(U8, U8, U8, U8, U16)), Fld("c", TUP(U8, U8, U16, U8, U8, U8)), Fld("d", TUP(U8, U16, U8, U8, U8, U8, U8)),
                   Fld("e", TUP(U8, U8, U8, U8, U8, U8, U8, U16)), Fld("f", TUP(U16, U8, U8, U8, U8, U8, U8, U8, U8)), Fld("g", TUP(U8, U8, U8, U8, U8, U8, U8, U8, U16, U8))], endian="little", size=True)
    D("TupleBits", [Fld("a", TUP(U8, U8, U8), bits=5), Fld("b", U8, bits=1)])
    D("TupS", [Fld("", U8), Fld("", U16, endian="big"), Fld("", U8, bits=4), Fld("", U8, bits=4)], tuple_=True, size=True)
    D("New", [Fld("", U32)], tuple_=True, endian="big", size=True)
    D("Unit0", [], size=True)
    D("Options", [Fld("a", OPT(U8)), Fld("b", OPT(U16), endian="big"), Fld("c", OPT(U8), bits=4), Fld("d", U8, bits=4)])
    D("Pointers", [Fld("a", BOX(U16), endian="big"), Fld("b", ARC(U32)), Fld("c", COW(U16)), Fld("d", BOX(ARR(U8, 3))), Fld("e", BOX(U8), bits=4), Fld("f", ARC(U8), bits=4)])
    # nesting and inheritance of context
    leaf = D("Leaf", [Fld("a", U8), Fld("b", U16, endian="big")], size=True)
    bits = D("LeafBits", [Fld("a", U8, bits=3), Fld("b", U16, bits=9)], endian="big", size=True)
    le = D("LeafE", [Fld("a", U16), Fld("b", U32, bytes=3), Fld("c", U8)], ctx=[END], endian="endian", size=True)
    leo = D("LeafEO", [Fld("a", U16), Fld("b", U8, bits=4), Fld("c", U16, bits=12)], ctx=[END, ORD], endian="endian", bit_order="order", size=True)
    lo = D("LeafO", [Fld("a", U8), Fld("b", U8, bits=4), Fld("c", U8, bits=4)], ctx=[ORD], bit_order="order", size=True)
    lx = D("LeafX", [Fld("n", U8, hint=(0, 9)), Fld("v", VEC(U8), count=F("n") + C("extra") % 5)], ctx=[("extra", "u8")])
    lex = D("LeafEX", [Fld("a", U16), Fld("v", VEC(U16), count=C("n") % 7)], ctx=[END, ("n", "usize")], endian="endian")
    lw = D("LeafBS", [Fld("a", U8, bits=C("w").__class__("c", "w")), Fld("b", U16)], ctx=[("w", "usize")], endian="big")
    D("Nest", [Fld("l", N(leaf)), Fld("p", U8, bits=4), Fld("m", N(bits)), Fld("ar", ARR(N(leaf), 2)), Fld("t", TUP(N(leaf), U8)), Fld("o", OPT(N(leaf))), Fld("b", BOX(N(bits)))])
    for e in ("little", "big"):
        D(f"NestE{e[0].upper()}", [Fld("l", N(le)), Fld("x", U16), Fld("m", ARR(N(le), 2)), Fld("f", N(le), endian="big"), Fld("t", TUP(U16, N(le)))], endian=e, size=True)
        for o in ("msb", "lsb"):
            D(f"NestEO{e[0].upper()}{o[0].upper()}", [Fld("l", N(leo)), Fld("x", U16), Fld("m", ARR(N(leo), 2)), Fld("t", N(leo), bit_order=o)], endian=e, bit_order=o, size=True)
    D("NestO", [Fld("l", N(lo)), Fld("m", ARR(N(lo), 2))], bit_order="lsb", size=True)
    D("NestOF", [Fld("l", N(lo), bit_order="lsb"), Fld("m", N(lo), bit_order="msb"), Fld("k", TUP(N(lo), N(lo)), bit_order="lsb")], size=True)
    D("NestX", [Fld("k", U8), Fld("l", N(lx), ctx=[(F("k"), "u8")]), Fld("m", N(lx), ctx=[(F("k") + 1, "u8")]), Fld("c", N(lx), ctx=[(L(2), "u8")])])
    D("NestEX", [Fld("k", U8), Fld("l", N(lex), ctx=[(F("k"), "usize")]), Fld("m", N(lex), ctx=[(F("k") * 3 + 1, "usize")], endian="big")], endian="little")
    D("NestW", [Fld("k", U8, hint=(1, 8)), Fld("l", N(lw), ctx=[(F("k"), "usize")]), Fld("m", ARR(N(lw), 3), ctx=[(F("k"), "usize")])])
    two = D("TwoCtx", [Fld("a", VEC(U8), count=C("a") % 4 + C("b") % 3), Fld("b", U8)], ctx=[("a", "u8"), ("b", "u8")])
    D("NestTwo", [Fld("x", U8), Fld("y", U8), Fld("t", N(two), ctx=[(F("x"), "u8"), (F("y"), "u8")]), Fld("z", U16)])
    mid = D("Mid", [Fld("h", U8), Fld("l", N(le)), Fld("m", N(lex), ctx=[(F("h"), "usize")])], ctx=[END], endian="endian")
    D("Deep", [Fld("a", N(mid)), Fld("b", ARR(N(mid), 2)), Fld("c", N(mid), endian="little")], endian="big")
    D("CtxDef", [Fld("a", U8), Fld("v", VEC(U8), count=C("n"))], ctx=[("n", "usize")], ctx_default=(["3"], [3]))
    D("CtxDef2", [Fld("a", U16), Fld("v", U8, bits=C("w"))], ctx=[END, ("w", "usize")], endian="endian", ctx_default=(["deku::ctx::Endian::Big", "6"], [1, 6]))
    D("BitsExpr", [Fld("n", U8, bits=4, hint=(1, 15)), Fld("a", U16, bits=F("n")), Fld("b", I32, bits=F("n") + 2), Fld("c", U32, bytes=F("n") % 4 + 1)], endian="big")
    D("BitsExprL", [Fld("n", U8, bits=4, hint=(1, 15)), Fld("a", U16, bits=F("n")), Fld("b", I32, bits=F("n") + 2)], endian="little")
    return z

# ------------------------------------------------------------------ b: collections and enums

def zoo_b():
    z = []
    def D(*a, **k):
        d = Decl(*a, **k)
        z.append(d)
        return d
    leaf = D("BLeaf", [Fld("a", U8), Fld("b", U16, endian="big")], derives=["PartialEq", "Eq", "Hash"], size=True)
    bl = D("BBits", [Fld("a", U8, bits=3), Fld("b", U8, bits=2)])
    le = D("BLeafE", [Fld("a", U16), Fld("b", U8)], ctx=[END], endian="endian")
    lx = D("BLeafX", [Fld("a", U8), Fld("b", VEC(U8), count=C("x") % 4)], ctx=[("x", "u8")])
    vl = D("BVar", [Fld("n", U8, hint=(0, 4)), Fld("v", VEC(U8), count=F("n"))])
    NH = dict(hint=(0, 6))
    kinds = [("Vec", VEC), ("Bs", BOXS), ("As", ARCS)]
    for kn, K in kinds:
        D(f"Cnt{kn}", [Fld("n", U8, **NH), Fld("a", K(U8), count=F("n")), Fld("m", U16, endian="big", **NH), Fld("b", K(U16), count=F("m"), endian="big"), Fld("c", U8)])
        D(f"CntN{kn}", [Fld("n", U8, **NH), Fld("a", K(N(leaf)), count=F("n")), Fld("b", K(N(vl)), count=F("n")), Fld("c", U8)])
        D(f"CntBits{kn}", [Fld("n", U8, bits=4, **NH), Fld("a", K(U8), count=F("n"), bits=5), Fld("b", K(N(bl)), count=F("n")), Fld("c", U8, bits=4)])
        D(f"BytesR{kn}", [Fld("n", U8, **NH), Fld("a", K(U8), bytes_read=F("n")), Fld("b", K(U16), bytes_read=F("n") * 2, endian="little"), Fld("c", U8)])
        D(f"BitsR{kn}", [Fld("n", U8, **NH), Fld("a", K(U8), bits_read=F("n") * 8), Fld("b", K(U8), bits_read=F("n") * 3, bits=3), Fld("c", U8, bits=5)])
        D(f"Until{kn}", [Fld("a", K(U8), until=ELEM.eq(0)), Fld("b", K(U16), until=(ELEM & 0xff).eq(0), endian="big"), Fld("c", U8)])
        D(f"UntilN{kn}", [Fld("s", U8), Fld("a", K(N(leaf)), until=ELEMAT_(leaf, "a").eq(F("s"))), Fld("c", U8)])
        D(f"All{kn}", [Fld("h", U8), Fld("a", K(U8), read_all=True)])
        D(f"AllN{kn}", [Fld("a", K(N(vl)), read_all=True)])
        D(f"AllB{kn}", [Fld("p", U8), Fld("a", K(U32), read_all=True, bytes=3, endian="big")])
        D(f"AllB2{kn}", [Fld("p", U8), Fld("a", K(TUP(U32, U64)), read_all=True, bytes=2, endian="big")])
        D(f"AllBl{kn}", [Fld("p", U8, bits=3), Fld("a", K(U64), read_all=True, bytes=5, endian="little")])
        D(f"AllBits{kn}", [Fld("p", U8, bits=4), Fld("a", K(U16), read_all=True, bits=10)])
        D(f"AllF{kn}", [Fld("a", K(F64), read_all=True)]) if "F64" in globals() else None
        D(f"AllA{kn}", [Fld("a", K(ARR(U16, 3)), read_all=True, endian="little")])
        D(f"All16{kn}", [Fld("p", U8), Fld("a", K(U16), read_all=True, endian="big")])
    # limits of exact bit sizes with wide or variable elements
    D("BytesVar", [Fld("n", U8, hint=(0, 8)), Fld("a", VEC(N(vl)), bytes_read=F("n")), Fld("t", U8)])
    D("BitsElem", [Fld("n", U8, hint=(0, 5)), Fld("a", VEC(N(bl)), bits_read=F("n") * 5), Fld("t", U8, bits=3)])
    D("BytesBig", [Fld("n", U16, endian="big", hint=(0, 40)), Fld("a", VEC(U8), bytes_read=F("n")), Fld("b", VEC(U32), bytes_read=F("n") * 4, endian="big")])
    D("CntWide", [Fld("n", U32, endian="little", hint=(0, 9)), Fld("a", VEC(U64), count=F("n"), endian="little")])
    D("CntHuge", [Fld("n", U64, endian="little", hint=(0, 9)), Fld("a", VEC(U8), count=F("n"))])
    D("CntHuge2", [Fld("n", U64, endian="little", hint=(0, 9)), Fld("a", VEC(N(leaf)), count=F("n"))])
    D("CntHuge3", [Fld("n", U64, endian="little", hint=(0, 9)), Fld("a", BOXS(U32), count=F("n"), endian="big")])
    D("CntBig128", [Fld("n", U128, endian="little", hint=(0, 9)), Fld("a", VEC(U16), count=F("n"), endian="big")])
    D("CntSigned", [Fld("n", I16, endian="little", hint=(0, 9)), Fld("a", VEC(U8), count=F("n")), Fld("b", VEC(U16), count=F("n"))])
    D("BytesHuge", [Fld("n", U64, endian="little", hint=(0, 9)), Fld("a", VEC(U8), bytes_read=F("n"))])
    D("BitsHuge", [Fld("n", U64, endian="little", hint=(0, 9)), Fld("a", VEC(U8), bits_read=F("n") * 8)])
    D("MapHuge", [Fld("n", U64, endian="little", hint=(0, 5)), Fld("a", MAP(U32, U64), count=F("n"), endian="big")])
    D("SetHuge", [Fld("n", U64, endian="little", hint=(0, 5)), Fld("a", SET(U32), count=F("n"), endian="big")])
    D("StrHuge", [Fld("n", U64, endian="little", hint=(1, 9)), Fld("s", CSTR, bytes=F("n"))])
    D("PadHuge", [Fld("n", U32, endian="little", hint=(0, 5)), Fld("a", U8, pad_bytes_before=F("n")), Fld("b", U8, pad_bits_after=F("n") * 8)])
    # counted bytes with something which changes the elements
    D("CntU8Lsb", [Fld("n", U8, **NH), Fld("a", VEC(U8), count=F("n"), bits=4), Fld("b", VEC(U8), count=F("n"))], bit_order="lsb")
    D("CntU8End", [Fld("n", U8, **NH), Fld("a", VEC(U8), count=F("n")), Fld("b", VEC(U8), count=F("n"), bits=8)], endian="little")
    D("CntU8Una", [Fld("p", U8, bits=4), Fld("n", U8, **NH), Fld("a", VEC(U8), count=F("n")), Fld("q", U8, bits=4)])
    D("CntU8UnaL", [Fld("p", U8, bits=4), Fld("n", U8, **NH), Fld("a", VEC(U8), count=F("n")), Fld("q", U8, bits=4)], bit_order="lsb")
    D("CntU8Bytes", [Fld("n", U8, **NH), Fld("a", VEC(U8), count=F("n"), bytes=1), Fld("c", VEC(U16), count=F("n"), bytes=1, endian="big")])
    D("CntI8", [Fld("n", U8, **NH), Fld("a", VEC(I8), count=F("n")), Fld("b", VEC(I8), count=F("n"), bits=4)])
    D("CntBool", [Fld("n", U8, **NH), Fld("a", VEC(BOOL), count=F("n")), Fld("b", VEC(BOOL), count=F("n") * 8, bits=1)])
    D("CntE", [Fld("n", U8, **NH), Fld("a", VEC(N(le)), count=F("n")), Fld("b", VEC(N(le)), count=F("n"), endian="big")], endian="little")
    D("CntX", [Fld("n", U8, **NH), Fld("a", VEC(N(lx)), count=F("n"), ctx=[(F("n"), "u8")]), Fld("b", BOXS(N(lx)), count=2, ctx=[(L(3), "u8")])])
    D("CntVV", [Fld("n", U8, hint=(0, 3)), Fld("a", VEC(ARR(U16, 2)), count=F("n"), endian="big"), Fld("b", VEC(TUP(U8, U16)), count=F("n"), endian="little")])
    D("CntTupU", [Fld("n", U8, **NH), Fld("a", VEC(TUP(U8, U8)), until=ELEMAT(1).eq(0)), Fld("b", VEC(U8), until=ELEM.eq(F("n")))])
    D("CntStr", [Fld("n", U8, hint=(0, 3)), Fld("a", VEC(CSTR), count=F("n")), Fld("b", U8)])
    D("CntExpr", [Fld("n", U8, **NH), Fld("m", U8, **NH), Fld("a", VEC(U16), count=F("n") + F("m") * 2, endian="big"), Fld("b", VEC(U8), count=(F("n") + F("m")) % 4)])
    D("CntSub", [Fld("n", U8, hint=(2, 6)), Fld("a", VEC(U16), count=F("n") - 2, endian="big"), Fld("b", U8)])
    D("CntLit", [Fld("a", VEC(U8), count=4), Fld("b", VEC(U16), count=2, endian="big"), Fld("c", VEC(U8), bytes_read=3), Fld("d", VEC(U8), bits_read=16)])
    D("ArrVec", [Fld("n", U8, hint=(0, 3)), Fld("a", ARR(VEC(U16), 2), count=F("n"), endian="big"), Fld("b", U8)])
    D("OptVec", [Fld("n", U8, hint=(0, 3)), Fld("a", OPT(VEC(U16)), count=F("n"), endian="big"), Fld("b", BOX(VEC(U8)), count=F("n"))])
    # maps and sets
    D("SetC", [Fld("n", U8, hint=(0, 4)), Fld("a", SET(U16), count=F("n"), endian="big"), Fld("b", U8)])
    D("SetB", [Fld("n", U8, hint=(0, 4)), Fld("a", SET(U16), bytes_read=F("n") * 2, endian="big"), Fld("b", U8)])
    D("SetBits", [Fld("n", U8, bits=4, hint=(0, 4)), Fld("a", SET(U8), bits_read=F("n") * 4, bits=4), Fld("b", U8, bits=4)])
    D("SetU", [Fld("a", SET(U8), until=ELEM.eq(0)), Fld("b", U8)])
    D("SetA", [Fld("b", U8), Fld("a", SET(U16), read_all=True, endian="little")])
    D("SetN", [Fld("n", U8, hint=(0, 3)), Fld("a", SET(N(leaf)), count=F("n")), Fld("b", U8)])
    D("MapC", [Fld("n", U8, hint=(0, 4)), Fld("a", MAP(U8, U16), count=F("n"), endian="big"), Fld("b", U8)])
    D("MapB", [Fld("n", U8, hint=(0, 4)), Fld("a", MAP(U8, U16), bytes_read=F("n") * 3, endian="little"), Fld("b", U8)])
    D("MapBits", [Fld("n", U8, bits=4, hint=(0, 4)), Fld("a", MAP(U8, U8), bits_read=F("n") * 8, bits=4), Fld("b", U8, bits=4)])
    D("MapU", [Fld("a", MAP(U8, U8), until=ELEMAT(0).eq(0)), Fld("b", U8)])
    D("MapA", [Fld("b", U8), Fld("a", MAP(U8, U16), read_all=True, endian="little")])
    D("MapN", [Fld("n", U8, hint=(0, 3)), Fld("a", MAP(U16, N(vl)), count=F("n")), Fld("b", U8)])
    # enums
    V = Var
    D("EPlain", variants=[V("A", id=("1", "Val::N(1)")), V("B", [Fld("x", U8)], id=("2", "Val::N(2)"), tuple_=True), V("C", [Fld("a", U16, endian="big"), Fld("b", U8)], id=("0xff", "Val::N(255)"))], id_type=U8, size=True)
    for e in ("little", "big"):
        for n, ty in (("16", U16), ("32", U32), ("64", U64), ("i16", I16), ("128", U128)):
            D(f"E{n}{e[0].upper()}", variants=[V("A", [Fld("x", U16)], id=("0x0102", "Val::N(0x0102)"), tuple_=True), V("B", id=("0x0201", "Val::N(0x0201)")), V("C", [Fld("x", ty), Fld("y", U8)], pat=("3..=9 | 0x1000", [(3, 9), (0x1000, 0x1000)])), V("D", [Fld("x", U8)], default=False, id=("7700", "Val::N(7700)"))],
              id_type=ty, endian=e, size=True)
    D("ESigned", variants=[V("A", id=("-1", "Val::N(-1)")), V("B", [Fld("x", U8)], id=("-128", "Val::N(-128)")), V("C", [Fld("i", I8), Fld("x", U8)], pat=("-9..=-3", [(-9, -3)]))], id_type=I8, size=True)
    D("EBits", variants=[V("A", [Fld("x", U8, bits=6)], id=("0", "Val::N(0)")), V("B", [Fld("x", U8, bits=6)], id=("1", "Val::N(1)")), V("C", [Fld("x", U8, bits=6)], id=("2", "Val::N(2)"), tuple_=True), V("D", [Fld("x", U8, bits=6)], id=("3", "Val::N(3)"))], id_type=U8, bits=2, size=True)
    D("EBitsP", variants=[V("A", [Fld("x", U8, bits=4)], id=("0", "Val::N(0)")), V("B", [Fld("i", U8), Fld("x", U8, bits=3)], pat=("1..=9", [(1, 9)])), V("C", [Fld("i", U8), Fld("x", U8, bits=4)], pat=("_", [(0, 255)]))], id_type=U8, bits=4, size=True)
    D("EBitsL", variants=[V("A", [Fld("x", U8, bits=5)], id=("0", "Val::N(0)")), V("B", [Fld("i", U8), Fld("x", U8, bits=5)], pat=("1..=5", [(1, 5)])), V("C", [Fld("x", U16, bits=13)], id=("7", "Val::N(7)"))], id_type=U8, bits=3, endian="little", bit_order="lsb", size=True)
    D("EBitsIO", variants=[V("A", [Fld("x", U8, bits=4)], id=("1", "Val::N(1)")), V("B", [Fld("x", U8, bits=4)], id=("8", "Val::N(8)"))], id_type=U8, bits=4, bit_order="lsb", size=True)
    D("EBytes", variants=[V("A", [Fld("x", U8)], id=("0x010203", "Val::N(0x010203)")), V("B", id=("7", "Val::N(7)")), V("C", [Fld("i", U32), Fld("z", U16)], pat=("0x10..=0xffff", [(0x10, 0xffff)]))], id_type=U32, bytes=3, endian="big", size=True)
    D("EIdEnd", variants=[V("A", [Fld("x", U16)], id=("0x0102", "Val::N(0x0102)")), V("B", [Fld("i", U16), Fld("x", U16)], pat=("_", [(0, 65535)]))], id_type=U16, endian="little", id_endian="big", size=True)
    D("EIdEnd2", variants=[V("A", [Fld("x", U16)], id=("0x0102", "Val::N(0x0102)")), V("B", [Fld("i", U16), Fld("x", U16)], pat=("0x0200..=0xfff0", [(0x200, 0xfff0)]))], id_type=U16, endian="big", id_endian="little", size=True)
    D("EDefault", variants=[V("A", [Fld("x", U8)], id=("1", "Val::N(1)")), V("B", [Fld("y", U16, endian="big")], id=("2", "Val::N(2)"), default=True), V("C", id=("3", "Val::N(3)"))], id_type=U8, size=True)
    D("EDefaultU", variants=[V("A", [Fld("x", U8)], id=("1", "Val::N(1)")), V("Z", id=("0", "Val::N(0)"), default=True)], id_type=U8, size=True)
    D("EDisc", variants=[V("A", id=("1", "Val::N(1)"), disc=1), V("B", id=("5", "Val::N(5)"), disc=5), V("C", id=("6", "Val::N(6)"), disc=6)], id_type=U8, repr_="u8", size=True, tags=["disc"])
    D("EDisc16", variants=[V("A", id=("258", "Val::N(258)"), disc=258), V("B", id=("4", "Val::N(4)"), disc=4)], id_type=U16, repr_="u16", endian="big", size=True, tags=["disc"])
    D("EDiscL", variants=[V("A", id=("258", "Val::N(258)"), disc=258), V("B", id=("4", "Val::N(4)"), disc=4)], id_type=U32, repr_="u32", endian="little", size=True, tags=["disc"])
    D("EDiscI", variants=[V("A", id=("-2", "Val::N(-2)"), disc=-2), V("B", id=("100", "Val::N(100)"), disc=100)], id_type=I16, repr_="i16", endian="big", size=True, tags=["disc"])
    for rp in ("u64", "u128", "i8", "i32", "i64", "i128"):
        for e in ("little", "big"):
            neg = -3 if rp[0] == "i" else 99
            D(f"EDisc{rp.upper()}{e[0].upper()}", variants=[V("A", id=("1", "Val::N(1)"), disc=1), V("B", id=(str(neg), f"Val::N({neg})"), disc=neg), V("C", [Fld("y", U8)], id=("6", "Val::N(6)")), V("D", id=("7", "Val::N(7)"))], id_type=I(rp), repr_=rp, endian=e, size=True)
        D(f"EDisc{rp.upper()}Bits", variants=[V("A", [Fld("y", U8, bits=3)], id=("1", "Val::N(1)")), V("B", id=("6", "Val::N(6)"), disc=6), V("C", [], id=("11", "Val::N(11)"))], id_type=I(rp), bits=5, repr_=rp, endian="big", size=True)
    bs = lambda t: ('b"' + t + '"', "Val::List(vec![" + ", ".join(f"Val::N({ord(c)})" for c in t) + "])")
    D("EByteStr", variants=[V("A", [Fld("x", U8)], id=bs("ab")), V("B", id=bs("ac")), V("C", [Fld("x", U16, endian="big")], id=bs("zb"), tuple_=True)], id_type=ARR(U8, 2), size=True)
    D("EByteStrD", variants=[V("A", [Fld("x", U32, endian="big")], id=bs("HEAD")), V("B", id=bs("BODY")), V("Z", [Fld("x", U8)], id=bs("....")  , default=True)], id_type=ARR(U8, 4), magic=b"\x7f", size=True)
    D("EConst", variants=[V("A", [Fld("x", U8)], id=("u8::MAX", "Val::N(255)")), V("B", id=("u8::MIN", "Val::N(0)")), V("C", [Fld("x", U16, endian="big")], id=("0x7", "Val::N(7)"))], id_type=U8, size=True)
    D("EBoolBits", variants=[V("B", id=("false", "Val::N(0)")), V("A", [Fld("x", U8, bits=7)], id=("true", "Val::N(1)"))], id_type=BOOL, bits=1, size=True)
    D("ETempU", variants=[V("A", id=("1", "Val::N(1)")), V("B", [Fld("n", U8, temp=True, temp_value=LEN("v"), hint=(0, 4)), Fld("v", VEC(U8), count=F("n"))], id=("2", "Val::N(2)")), V("C", id=("3", "Val::N(3)"))], id_type=U8)
    un = D("UnitMagic", [], magic=b"U!", size=True)
    D("UsesUnit", [Fld("a", U8, bits=3), Fld("u", N(un), pad_bits_before=2), Fld("b", U8, bits=3), Fld("v", ARR(N(un), 2)), Fld("c", U16)], size=True)
    D("EDiscBits", variants=[V("A", id=("1", "Val::N(1)"), disc=1), V("B", id=("6", "Val::N(6)"), disc=6), V("C", [], id=("7", "Val::N(7)"), disc=7)], id_type=U8, bits=3, repr_="u8", size=True, tags=["disc"])
    D("EDiscF", variants=[V("A", id=("1", "Val::N(1)"), disc=1), V("B", [Fld("y", U8)], id=("6", "Val::N(6)"))], id_type=U8, repr_="u8", endian="big", size=True, tags=["disc"])
    D("EArr", variants=[V("A", [Fld("x", U8)], id=("[1, 2]", "Val::List(vec![Val::N(1), Val::N(2)])")), V("B", id=("[1, 3]", "Val::List(vec![Val::N(1), Val::N(3)])")), V("C", [Fld("y", U16)], id=("[0, 2]", "Val::List(vec![Val::N(0), Val::N(2)])"))], id_type=ARR(U8, 2), size=True)
    D("ETup", variants=[V("A", [Fld("x", U8)], id=("(1, 2)", "Val::Rec(vec![Val::N(1), Val::N(2)])")), V("B", id=("(1, 0x0300)", "Val::Rec(vec![Val::N(1), Val::N(0x300)])"))], id_type=TUP2(U8, U16), endian="big", size=True)
    D("EBool", variants=[V("A", [Fld("x", U8)], id=("true", "Val::N(1)")), V("B", id=("false", "Val::N(0)"))], id_type=BOOL, size=True)
    D("EMagic", variants=[V("A", [Fld("x", U8)], id=("1", "Val::N(1)")), V("B", id=("2", "Val::N(2)"))], id_type=U8, magic=b"\xde\xad", size=True)
    D("EWild", variants=[V("A", id=("1", "Val::N(1)")), V("W", [Fld("i", U8)], pat=("_", [(0, 255)]), tuple_=True)], id_type=U8, size=True)
    D("EWildF", variants=[V("A", [Fld("x", U32)], id=("1", "Val::N(1)")), V("W", [Fld("i", U8), Fld("n", U8, hint=(0, 4)), Fld("v", VEC(U8), count=F("n"))], pat=("_", [(0, 255)]))], id_type=U8)
    D("EWildW", variants=[V("A", id=("1", "Val::N(1)")), V("W", [Fld("i", U32), Fld("x", U8)], pat=("_", [(0, (1 << 32) - 1)]))], id_type=U32, endian="big", size=True)
    D("EOver", variants=[V("A", id=("1", "Val::N(1)")), V("B", [Fld("i", U8)], pat=("1..=3", [(1, 3)])), V("C", [Fld("i", U8), Fld("x", U8)], pat=("2..=9", [(2, 9)]))], id_type=U8, size=True)
    # ids from the context
    ec = D("ECtx", variants=[V("A", [Fld("x", U8)], id=("1", "Val::N(1)")), V("B", [Fld("x", U16, endian="big")], id=("2", "Val::N(2)")), V("C", [Fld("a", U8), Fld("b", U8)], pat=("_", [(0, 255)]))], ctx=[("my_id", "u8")], id_ctx=("my_id", C("my_id"), "u8"), size=True)
    ecp = D("ECtxP", variants=[V("A", [Fld("x", U8)], id=("1", "Val::N(1)")), V("B", [Fld("x", U16, endian="big"), Fld("y", U16)], pat=("2..=4", [(2, 4)])), V("C", [Fld("n", U8, bits=2), Fld("m", U8, bits=6)], pat=("5", [(5, 5)])), V("D", [Fld("x", U32, bytes=3), Fld("y", U8)], pat=("6 | 7", [(6, 7)])), V("E", [Fld("x", U8, pad_bytes_before=1), Fld("y", U8)], pat=("_", [(0, 255)]))], ctx=[("my_id", "u8")], ctx_default=(["3"], [3]), id_ctx=("my_id", C("my_id"), "u8"), endian="little")
    D("ECtxQ", variants=[V("A", [Fld("x", U8)], id=("1", "Val::N(1)")), V("C", [Fld("n", U8, bits=2), Fld("m", U8, bits=6), Fld("w", U16, endian="big")], pat=("_", [(0, 255)]))], ctx=[("my_id", "u8")], ctx_default=(["9"], [9]), id_ctx=("my_id", C("my_id"), "u8"), endian="little")
    D("UseCtxP", [Fld("k", U8, hint=(0, 9)), Fld("e", N(ecp), ctx=[(F("k"), "u8")]), Fld("t", U8)])
    ec2 = D("ECtxE", variants=[V("A", [Fld("x", U16)], id=("1", "Val::N(1)"), tuple_=True), V("B", [Fld("x", U32)], id=("2", "Val::N(2)"), tuple_=True), V("C", id=("3", "Val::N(3)"))], ctx=[END, ("my_id", "u8")], id_ctx=("my_id", C("my_id"), "u8"), endian="endian", size=True)
    D("UseCtx", [Fld("k", U8, hint=(0, 4)), Fld("e", N(ec), ctx=[(F("k"), "u8")]), Fld("t", U8)])
    D("UseCtxE", [Fld("k", U8, hint=(1, 3)), Fld("e", N(ec2), ctx=[(F("k"), "u8")]), Fld("f", N(ec2), ctx=[(F("k"), "u8")], endian="big"), Fld("n", U8, hint=(0, 3)), Fld("v", VEC(N(ec2)), count=F("n"), ctx=[(F("k"), "u8")])], endian="little")
    D("ECtxDef", variants=[V("A", [Fld("x", U8)], id=("1", "Val::N(1)")), V("B", [Fld("x", U16, endian="big")], id=("2", "Val::N(2)"))], ctx=[("my_id", "u8")], ctx_default=(["2"], [2]), id_ctx=("my_id", C("my_id"), "u8"), size=True)
    D("ECtxExpr", variants=[V("A", [Fld("x", U8)], id=("3", "Val::N(3)")), V("B", [Fld("x", U16, endian="big")], id=("4", "Val::N(4)"))], ctx=[("a", "u8"), ("c", "u8")], ctx_default=(["1", "2"], [1, 2]), id_ctx=("a + c", C("a") + C("c")), size=True)
    # several ids from the context
    tid = lambda a, c: (f"({a}, {c})", f"Val::Rec(vec![Val::N({a}), Val::N({c})])")
    trng = lambda a, lo, hi: ((a << 32) + lo, (a << 32) + hi)
    ect = D("ECtxT", variants=[V("A", [Fld("x", U8)], id=tid(1, 1)), V("B", [Fld("x", U16, endian="big"), Fld("y", U8)], id=tid(1, 2)), V("C", [Fld("x", U16)], pat=("(2, _)", [trng(2, 0, 65535)])), V("D", id=tid(2, 1)), V("E", [Fld("n", U8, bits=3), Fld("m", U8, bits=5), Fld("x", U32, bytes=3)], pat=("(3, 1..=2) | (0, 3)", [trng(3, 1, 2), trng(0, 3, 3)])), V("F", id=tid(3, 3)), V("W", [Fld("x", U8, pad_bytes_before=1)], pat=("_", [(0, 1 << 40)]))], ctx=[("a", "u8"), ("c", "u16")], ctx_default=(["1", "2"], [1, 2]), id_ctx=("a, c", (C("a"), C("c")), "(u8, u16)"), endian="little")
    ect2 = D("ECtxU", variants=[V("A", [Fld("x", U8)], id=tid(1, 2), tuple_=True), V("B", [Fld("x", U16)], id=tid(2, 1), tuple_=True), V("C", id=tid(3, 0)), V("Z", [Fld("x", U32)], default=True, id=tid(9, 9), tuple_=True)], ctx=[END, ("a", "u8"), ("c", "u16")], id_ctx=("c, a", (C("c"), C("a")), "(u16, u8)"), endian="endian")
    ect3 = D("ECtxV", variants=[V("A", [Fld("x", U8)], id=tid(0, 0)), V("B", [Fld("x", U16, endian="big")], id=tid(0, 1))], ctx=[("a", "u8"), ("c", "u16")], ctx_default=(["0", "1"], [0, 1]), id_ctx=("a, c", (C("a"), C("c")), "(u8, u16)"))
    ctc = [(F("k"), "u8"), (F("j"), "u16")]
    D("UseCtxT", [Fld("k", U8, hint=(0, 4)), Fld("j", U16, hint=(0, 4)), Fld("e", N(ect), ctx=ctc), Fld("o", OPT(N(ect3)), cond=F("k").ge(3), ctx=ctc), Fld("t", U8)])
    D("UseCtxU", [Fld("k", U8, hint=(0, 3)), Fld("j", U16, hint=(0, 3)), Fld("e", N(ect2), ctx=ctc, endian="big"), Fld("n", U8, hint=(0, 3)), Fld("v", VEC(N(ect2)), count=F("n"), ctx=ctc), Fld("t", U8)], endian="little")
    # enums inside
    ein = D("EIn", variants=[V("A", [Fld("x", U16)], id=("1", "Val::N(1)")), V("B", [Fld("i", U8), Fld("y", U8)], pat=("2..=6", [(2, 6)])), V("C", id=("9", "Val::N(9)"))], id_type=U8, ctx=[END], endian="endian", size=True)
    D("HasE", [Fld("a", N(ein)), Fld("n", U8, hint=(0, 4)), Fld("v", VEC(N(ein)), count=F("n")), Fld("ar", ARR(N(ein), 2)), Fld("z", U16)], endian="big")
    D("HasEL", [Fld("a", N(ein)), Fld("v", VEC(N(ein)), read_all=True)], endian="little")
    D("EUpd", variants=[V("A", [Fld("n", U8, update=LEN("v"), hint=(0, 5)), Fld("v", VEC(U8), count=F("n"))], id=("1", "Val::N(1)")), V("B", [Fld("n", U16, update=LEN("v") * 2, endian="big", hint=(0, 5)), Fld("v", VEC(U8), count=F("n"))], id=("2", "Val::N(2)")), V("C", [Fld("x", U8)], id=("3", "Val::N(3)"))], id_type=U8)
    D("EMany", variants=[V(f"V{i}", [Fld("x", I(["u8", "u16", "i32", "u64"][i % 4]))], id=(str(i * 3), f"Val::N({i * 3})")) for i in range(24)], id_type=U8, endian="big", size=True)
    # recursion through a container
    return z

def TUP2(a, b):
    t = TUP(a, b)
    return t
def ELEMAT_(decl, field):
    i = [f.name for f in decl.fields].index(field)
    x = ELEMAT(i)
    return XN(i, field)
class XN(X):
    def __init__(self, i, field):
        super().__init__("elemat", i)
        self.field = field

# ------------------------------------------------------------------ c: flow

def zoo_c():
    z = []
    def D(*a, **k):
        d = Decl(*a, **k)
        z.append(d)
        return d
    leaf = D("CLeaf", [Fld("a", U8), Fld("b", U16, endian="big")])
    K = dict(hint=(0, 4))
    # cond, skip, default
    D("Cond", [Fld("k", U8, **K), Fld("a", OPT(U16), cond=F("k").ge(2), endian="big"), Fld("b", U8)])
    D("CondD", [Fld("k", U8, **K), Fld("a", OPT(U8), cond=F("k").eq(1), default=("some", L(7))), Fld("b", U8, cond=F("k").ne(1), default=("int", L(9))), Fld("c", U8)])
    D("CondInt", [Fld("k", U8, **K), Fld("a", U16, cond=F("k").lt(2), endian="little"), Fld("b", U8)])
    D("CondBits", [Fld("k", U8, bits=2), Fld("a", OPT(U8), cond=F("k").gt(1), bits=6), Fld("b", OPT(U8), cond=F("k").le(1), bits=6)])
    D("CondNest", [Fld("k", U8, **K), Fld("a", OPT(N(leaf)), cond=F("k").eq(2)), Fld("v", OPT(VEC(U16)), cond=F("k").eq(3), count=F("k"), endian="big"), Fld("b", U8)])
    D("CondChain", [Fld("f", U8), Fld("a", OPT(U8), cond=(F("f") & 1).ne(0)), Fld("b", OPT(U16), cond=(F("f") & 2).ne(0), endian="big"), Fld("c", OPT(U32), cond=(F("f") & 4).ne(0).land((F("f") & 8).eq(0)), endian="little"), Fld("d", OPT(U8), cond=SOME("a").eq(1))])
    D("SkipA", [Fld("a", U8), Fld("s", U16, skip="all"), Fld("b", U8)])
    D("SkipD", [Fld("a", U8), Fld("s", U16, skip="all", default=("int", F("a") + 1)), Fld("b", U8)])
    D("SkipO", [Fld("a", U8), Fld("s", OPT(U16), skip="all", default=("some", L(5))), Fld("t", VEC(U8), skip="all"), Fld("b", U8)])
    D("SkipC", [Fld("a", U8, **K), Fld("s", U8, skip="all", cond=F("a").eq(1), default=("int", L(77))), Fld("b", U8)])
    D("SkipR", [Fld("a", U8), Fld("s", U8, skip="read", default=("int", L(3))), Fld("b", U8)])
    D("SkipW", [Fld("a", U8), Fld("s", U8, skip="write"), Fld("b", U8)])
    D("SkipRC", [Fld("a", U8, **K), Fld("s", U8, skip="read", cond=F("a").eq(1), default=("int", L(3))), Fld("b", U8)])
    D("SkipWC", [Fld("a", U8, **K), Fld("s", U8, skip="write", cond=F("a").eq(1)), Fld("b", U8)])
    D("SkipBits", [Fld("a", U8, bits=3), Fld("s", U8, skip="all", bits=2), Fld("b", U8, bits=5)], size=True)
    D("SkipPad", [Fld("a", U8), Fld("s", U8, skip="all", pad_bytes_before=1, pad_bytes_after=2), Fld("b", U8)], size=True)
    D("SkipSize", [Fld("a", U8, bits=3), Fld("s", U32, skip="all"), Fld("v", VEC(U16), skip="all"), Fld("o", OPT(U16), skip="all", default=("some", L(5))), Fld("b", U16, bits=13)], endian="big", size=True)
    D("SkipSizeB", [Fld("a", U8), Fld("s", U32, skip="all", bytes=3), Fld("m", U8, skip="all", magic=b"\x07"), Fld("b", U16)], endian="big", size=True)
    D("SkipSizeE", variants=[Var("A", [Fld("x", U8), Fld("s", U64, skip="all")], id=("1", "Val::N(1)")), Var("B", [Fld("x", U16, endian="big"), Fld("y", U8), Fld("v", VEC(U8), skip="all")], id=("2", "Val::N(2)"))], id_type=U8, size=True)
    D("CondPad", [Fld("a", U8, **K), Fld("s", OPT(U8), cond=F("a").gt(1), pad_bytes_before=1, pad_bits_after=8), Fld("b", U8)])
    # temporaries
    D("Temp", [Fld("n", U8, temp=True, temp_value=LEN("v"), hint=(0, 5)), Fld("v", VEC(U8), count=F("n"))])
    D("Temp16", [Fld("a", U8), Fld("n", U16, temp=True, temp_value=LEN("v") * 2, endian="big", hint=(0, 5)), Fld("v", VEC(U16), bytes_read=F("n"), endian="little"), Fld("b", U8)])
    D("TempOnly", [Fld("n", U8, temp=True, hint=(0, 5)), Fld("v", VEC(U8), count=F("n")), Fld("b", U8)])
    D("TempBits", [Fld("n", U8, temp=True, temp_value=LEN("v"), bits=4, hint=(0, 5)), Fld("m", U8, bits=4), Fld("v", VEC(U8), count=F("n"))])
    D("TempTwo", [Fld("n", U8, temp=True, temp_value=LEN("v"), hint=(0, 4)), Fld("m", U8, temp=True, temp_value=LEN("w"), hint=(0, 4)), Fld("v", VEC(U8), count=F("n")), Fld("w", VEC(U16), count=F("m"), endian="big")])
    D("TempLsb", [Fld("n", U8, temp=True, temp_value=LEN("v"), bits=4, hint=(0, 5)), Fld("m", U8, bits=4), Fld("v", VEC(U8), count=F("n"))], bit_order="lsb")
    D("TempTup", [Fld("", U8, temp=True, temp_value=LEN("field_1"), hint=(0, 5)), Fld("", VEC(U8), count=F("field_0")), Fld("", U16, endian="big")], tuple_=True)
    D("TempE", variants=[Var("A", [Fld("n", U8, temp=True, temp_value=LEN("v"), hint=(0, 5)), Fld("v", VEC(U8), count=F("n"))], id=("1", "Val::N(1)")), Var("B", [Fld("x", U16)], id=("2", "Val::N(2)"))], id_type=U8, endian="big")
    # update
    D("Upd", [Fld("n", U8, update=LEN("v"), hint=(0, 5)), Fld("v", VEC(U8), count=F("n"))])
    D("Upd2", [Fld("n", U16, update=LEN("v") * 2 + 1, endian="big", hint=(0, 5)), Fld("m", U8, update=LEN("w"), hint=(0, 5)), Fld("v", VEC(U8), count=F("n")), Fld("w", VEC(U16), count=F("m"))])
    D("UpdSum", [Fld("a", U8), Fld("b", U8), Fld("s", U8, update=F("a") + F("b"))])
    D("UpdNeg", [Fld("a", U8), Fld("s", I8, update=F("a") - 100)])
    D("UpdTup", [Fld("", U8, update=LEN("field_1"), hint=(0, 5)), Fld("", VEC(U8), count=F("field_0"))], tuple_=True)
    D("UpdBits", [Fld("n", U8, bits=4, update=LEN("v"), hint=(0, 5)), Fld("x", U8, bits=4), Fld("v", VEC(U8), count=F("n"))])
    D("UpdChain", [Fld("a", U8, update=LEN("v")), Fld("b", U16, update=F("a") * 3), Fld("c", U8, update=F("b") % 200), Fld("v", VEC(U8), count=F("a") % 6)], endian="big")
    D("EUpdChain", variants=[Var("A", [Fld("a", U8, update=LEN("v"), hint=(0, 5)), Fld("b", U16, update=F("a") * 3), Fld("c", U8, update=F("b") % 200), Fld("v", VEC(U8), count=F("a") % 6)], id=("1", "Val::N(1)")), Var("B", [Fld("a", U8), Fld("b", U8, update=F("a")), Fld("c", U8, update=F("b")), Fld("d", U8, update=F("c") & 3)], id=("2", "Val::N(2)"), tuple_=False), Var("C", [Fld("i", U8), Fld("x", U8, update=F("y") & 7), Fld("y", U8, update=F("x") + 1)], pat=("_", [(0, 255)]))], id_type=U8, endian="big")
    D("UpdSkip", [Fld("n", U8, update=LEN("v"), hint=(0, 5)), Fld("v", VEC(U8), count=F("n")), Fld("s", U8, skip="all", default=("int", L(1)), update=LEN("v"))])
    # assertions and magic
    D("Assert", [Fld("a", U8, assert_=None) if False else Fld("a", U8, **{"assert": F("a").gt(3), "hint": (4, 200)}), Fld("b", U16, endian="big", **{"assert": F("b").lt(F("a") * 10), "hint": (0, 39)}), Fld("c", U8)])
    D("AssertEq", [Fld("a", U8, assert_eq=L(7), hint=(7, 7)), Fld("b", U8), Fld("c", U8, bits=4, assert_eq=L(9), hint=(9, 9)), Fld("d", U8, bits=4)])
    D("AssertEqF", [Fld("a", U8, hint=(3, 5)), Fld("b", U8, assert_eq=F("a"), hint=(3, 5)), Fld("c", U8)])
    D("AssertVec", [Fld("n", U8, hint=(1, 5)), Fld("v", VEC(U8), count=F("n"), **{"assert": LEN("v").gt(0)}), Fld("b", U8)])
    D("AssertC", [Fld("k", U8, **K), Fld("a", U8, cond=F("k").eq(1), default=("int", L(4)), hint=(4, 9), **{"assert": F("a").gt(3)}), Fld("b", U8)])
    D("AssertE", variants=[Var("A", [Fld("x", U8, hint=(0, 9), **{"assert": F("x").lt(10)})], id=("1", "Val::N(1)")), Var("B", [Fld("i", U8), Fld("x", U8, assert_eq=L(3), hint=(3, 3))], pat=("2..=9", [(2, 9)]))], id_type=U8)
    D("Magic", [Fld("a", U8), Fld("b", U16, endian="big")], magic=b"deku", size=True)
    D("MagicF", [Fld("a", U8), Fld("b", U16, endian="big", magic=b"\x01\x02\x03"), Fld("c", U8, magic=b"\xff"), Fld("d", U8)], magic=b"\x00", size=True)
    D("MagicB", [Fld("p", U8, bits=4), Fld("a", U8, bits=4, magic=b"\xa5\x5a")], size=True)
    D("MagicLsb", [Fld("p", U8), Fld("a", U8, bits=4, magic=b"\xa5\x5a"), Fld("b", U8, bits=4)], magic=b"\x12\x34", bit_order="lsb", size=True)
    D("MagicC", [Fld("k", U8, **K), Fld("a", OPT(U8), cond=F("k").gt(1), magic=b"\x7f"), Fld("b", U8)])
    D("MagicLong", [Fld("a", U8)], magic=bytes(range(40)), size=True)
    mg = D("MagicIn", [Fld("a", U8)], magic=b"\x42\x43", size=True)
    D("MagicV", [Fld("n", U8, hint=(0, 3)), Fld("v", VEC(N(mg)), count=F("n")), Fld("o", OPT(N(mg)), cond=F("n").eq(2)), Fld("z", U8)])
    D("MagicE", variants=[Var("A", [Fld("x", U8, magic=b"\x01\x01")], id=("1", "Val::N(1)")), Var("B", [Fld("x", U8)], id=("2", "Val::N(2)"))], id_type=U8, magic=b"\xca\xfe", size=True)
    # padding
    D("Pads", [Fld("a", U8, bits=4, pad_bits_before=2, pad_bits_after=2), Fld("b", U8, pad_bytes_before=2, pad_bytes_after=1), Fld("c", U8, pad_bits_before=3, pad_bytes_before=1, bits=5)], size=True)
    D("PadsLsb", [Fld("a", U8, bits=4, pad_bits_before=2, pad_bits_after=2), Fld("b", U8, pad_bytes_before=2, pad_bytes_after=1), Fld("c", U8, pad_bits_before=3, pad_bytes_before=1, bits=5)], bit_order="lsb", size=True)
    LS = dict(bit_order="lsb")
    D("PadsFLsb", [Fld("a", U8, bits=3, pad_bits_after=2, **LS), Fld("b", U8, bits=2, pad_bits_before=4, **LS), Fld("c", U8, bits=1, pad_bits_before=1, pad_bits_after=2, **LS), Fld("d", U8, bits=1, **LS), Fld("e", U16)], size=True)
    D("PadsFMsb", [Fld("a", U8, bits=3, pad_bits_after=2, bit_order="msb"), Fld("b", U8, bits=2, pad_bits_before=4, bit_order="msb"), Fld("c", U8, bits=5, bit_order="msb"), Fld("e", U8, bits=4), Fld("f", U8, pad_bits_before=2, bits=2)], bit_order="lsb", size=True)
    D("PadX", [Fld("n", U8, **K), Fld("a", U16, pad_bytes_before=F("n"), pad_bits_after=F("n") * 4, endian="big"), Fld("b", U8)])
    D("PadNeg", [Fld("n", U8, hint=(4, 9)), Fld("a", U8, pad_bytes_before=F("n") - 4), Fld("b", U8, pad_bits_before=(F("n") - 4) * 8)])
    D("PadAlign", [Fld("n", U8, hint=(0, 6)), Fld("v", VEC(U8), count=F("n"), pad_bytes_after=(L(4) - F("n") % 4) % 4), Fld("t", U16, endian="big")])
    D("PadBig", [Fld("a", U8, pad_bytes_before=33), Fld("b", U8, pad_bytes_after=64, pad_bits_after=9), Fld("c", U8, bits=7)], size=True)
    D("PadEnd", [Fld("a", U8, pad_bytes_after=3)], size=True)
    D("PadVar", variants=[Var("A", [Fld("x", U8, pad_bytes_before=2)], id=("1", "Val::N(1)")), Var("B", [Fld("x", U16, endian="big", pad_bits_before=8)], id=("2", "Val::N(2)"))], id_type=U8, size=True)
    # offsets
    D("Offs", [Fld("a", U8), Fld("b", U32, reader=("custom::rd_at(deku::reader, deku::bit_offset, deku::byte_offset)", "m_rd_at"), writer=("custom::wr_at(deku::writer, *b, deku::bit_offset, deku::byte_offset)", "m_wr_at")), Fld("c", U16, endian="big"), Fld("d", U32, reader=("custom::rd_at(deku::reader, deku::bit_offset, deku::byte_offset)", "m_rd_at"), writer=("custom::wr_at(deku::writer, *d, deku::bit_offset, deku::byte_offset)", "m_wr_at"))])
    D("OffCount", [Fld("a", U16, endian="big"), Fld("v", VEC(U8), count=BYTEOFF + 1), Fld("w", VEC(U8), count=BITOFF // 8), Fld("x", U8, cond=BYTEOFF.eq(8), default=("int", L(1)))])
    D("OffAssert", [Fld("n", U8, hint=(0, 3)), Fld("v", VEC(U8), count=F("n")), Fld("x", U8, **{"assert": BYTEOFF.lt(3)}), Fld("y", U8, **{"assert": BITOFF.ge(16)})])
    D("OffPad", [Fld("a", U8, pad_bytes_before=2), Fld("v", VEC(U8), count=BYTEOFF, pad_bytes_before=1), Fld("e", U8, magic=b"\x01\x02", **{"assert": BYTEOFF.gt(5)})])
    # what attributes pass on, passed on as context
    for e in (None, "little", "big"):
        m = dict(endian=e) if e else {}
        S = (e or "None").capitalize()
        asb, aseb = ("bits",), ("endian", "bits")
        D("AsCtx" + S, [Fld("p", U8, bits=3), Fld("n", U8, bits=5, hint=(0, 4)), Fld("v", VEC(U8), count=F("n"), bits=4, as_ctx=asb), Fld("w", VEC(U8), count=F("n") % 3, bits=F("n") + 2, as_ctx=asb), Fld("a", U16, bits=11, as_ctx=asb), Fld("b", I32, bytes=3, as_ctx=("bytes",)), Fld("c", ARR(U8, 3), bits=5, as_ctx=asb), Fld("d", VEC(U16), bits_read=24, bits=12, as_ctx=asb), Fld("e", VEC(U8), count=2), Fld("f", VEC(U16), read_all=True, bits=9, as_ctx=asb)], **m)
    D("AsCtxEnd", [Fld("a", U16, endian="big", as_ctx=("endian",)), Fld("b", U32, endian="little", as_ctx=("endian",)), Fld("c", U32, endian="big", bits=19, as_ctx=aseb), Fld("d", I64, endian="little", bytes=5, as_ctx=("endian", "bytes")), Fld("n", U8, bits=2), Fld("v", VEC(U8), count=F("n"), endian="big", as_ctx=("endian",)), Fld("w", VEC(U8), count=F("n"), endian="little", as_ctx=("endian",)), Fld("x", VEC(U16), count=F("n"), endian="big", bits=10, as_ctx=asb), Fld("y", U8, bits=3)])
    D("AsCtxOrd", [Fld("a", U8, bit_order="lsb", bits=3, endian="little", as_ctx=("endian", "bits", "bit_order")), Fld("b", U8, bits=5, bit_order="lsb", endian="little", as_ctx=("bits", "bit_order")), Fld("n", U8, hint=(0, 4)), Fld("v", VEC(U8), count=F("n"), endian="little", bits=8, bit_order="lsb", as_ctx=("bit_order",)), Fld("w", U16, endian="big", bits=16, bit_order="lsb", as_ctx=("bits", "bit_order"))])
    D("OffBits", [Fld("p", U8, bits=3), Fld("v", VEC(U8), count=BITOFF % 4, bits=5), Fld("q", VEC(U8), bits_read=(BITOFF // 2 % 3) * 2, bits=2), Fld("z", U8, bits=5)])
    offx = D("OffX", [Fld("v", VEC(U8), count=C("o") % 5)], ctx=[("o", "usize")])
    D("OffCtx", [Fld("a", U16, endian="big"), Fld("v", N(offx), ctx=[(BYTEOFF, "usize")]), Fld("w", N(offx), ctx=[(BITOFF // 8 + 1, "usize")])])
    # offsets in the middle of a byte, where reading and writing have to agree
    D("OffMid", [Fld("p", U8, bits=3), Fld("a", U8, bits=2, **{"assert": BITOFF.eq(3)}), Fld("q", U8, bits=6), Fld("b", U16, bits=9, **{"assert": (BITOFF % 8).eq(3)}), Fld("n", U8, bits=2), Fld("v", VEC(U8), count=F("n"), bits=3), Fld("w", U8, bits=4, **{"assert": (BITOFF % 3).ge(1)}), Fld("z", U8, bits=6)], endian="big")
    D("OffMidEq", [Fld("p", U8, bits=4), Fld("a", U8, bits=4, assert_eq=BITOFF), Fld("q", U8, bits=5), Fld("b", U8, bits=7, assert_eq=BITOFF + BYTEOFF), Fld("z", U8, bits=4)])
    D("OffMidCond", [Fld("n", U8, bits=2), Fld("v", VEC(U8), count=F("n"), bits=3), Fld("x", U8, bits=5, skip="all", cond=(BITOFF % 2).eq(1), default=("int", L(3))), Fld("y", U8, bits=3, skip="write", cond=BITOFF.gt(100)), Fld("z", U8, bits=6)])
    offm = D("OffMidX", [Fld("x", U8, bits=3, skip="all", cond=(C("o") % 4).ge(2), default=("int", L(0))), Fld("v", VEC(U8), count=C("o") % 3, bits=2), Fld("w", U8, bits=5)], ctx=[("o", "usize")])
    D("OffMidCtx", [Fld("n", U8, bits=3), Fld("v", N(offm), ctx=[(BITOFF, "usize")]), Fld("w", N(offm), ctx=[(BITOFF + BYTEOFF, "usize")]), Fld("e", U8, bits=7)])
    D("OffMidLsb", [Fld("p", U8, bits=3), Fld("a", U8, bits=7, **{"assert": BITOFF.eq(3)}), Fld("v", N(offm), ctx=[(BITOFF, "usize")]), Fld("b", U8, bits=2, **{"assert": (BITOFF % 2).eq(1)})])
    D("OffMidVar", variants=[Var("A", [Fld("a", U8, bits=3), Fld("x", U8, bits=2, **{"assert": BITOFF.eq(6)}), Fld("z", U8, bits=8)], id=("1", "Val::N(1)")), Var("B", [Fld("v", N(offm), ctx=[(BITOFF, "usize")])], id=("2", "Val::N(2)"))], id_type=U8, bits=3)
    D("OffTempl", [Fld("n", U8, hint=(0, 3)), Fld("v", VEC(N(leaf)), count=F("n")), Fld("o", OPT(U8), cond=(BYTEOFF % 2).eq(1)), Fld("z", U8)])
    offi = D("OffIn", [Fld("x", U8), Fld("y", VEC(U8), count=BYTEOFF % 4)])
    D("OffNested", [Fld("a", U8), Fld("b", N(offi)), Fld("c", ARR(N(offi), 2)), Fld("z", U8)])
    D("OffUntil", [Fld("a", U16, endian="big"), Fld("v", VEC(U8), until=ELEM.eq(BYTEOFF)), Fld("z", U8)])
    D("OffDef", [Fld("a", U16, endian="big"), Fld("s", U16, skip="all", default=("int", BITOFF + 1)), Fld("k", U8, **K), Fld("c", U8, skip="read", default=("int", BYTEOFF)), Fld("z", U8)])
    D("OffDefC", [Fld("a", U8, **K), Fld("o", OPT(U8), cond=F("a").gt(2), default=("some", BYTEOFF + 7)), Fld("z", U8, bits=4), Fld("w", U8, bits=4)])
    D("OffBytes", [Fld("a", U16, endian="big"), Fld("v", VEC(U8), bytes_read=BYTEOFF), Fld("z", U8)])
    D("OffBitsR", [Fld("a", U16, endian="big"), Fld("v", VEC(U8), bits_read=BITOFF), Fld("z", U8)])
    D("OffEq", [Fld("p", U16, endian="big"), Fld("x", U8, assert_eq=BITOFF % 16), Fld("y", U8)])
    D("OffEqB", [Fld("n", U8, hint=(0, 3)), Fld("v", VEC(U8), count=F("n")), Fld("x", U8, assert_eq=BYTEOFF)])
    # seeking
    D("SeekS", [Fld("a", U8), Fld("b", U16, seek=("start", L(4)), endian="big"), Fld("c", U8)])
    D("SeekC", [Fld("a", U8), Fld("b", U8, seek=("current", L(2))), Fld("c", U8)])
    D("SeekCN", [Fld("a", U16, endian="big"), Fld("b", U8, seek=("current", L(-1))), Fld("c", U8)])
    D("SeekE", [Fld("a", U8), Fld("b", U8, seek=("end", L(-2))), Fld("c", U8)])
    D("SeekR", [Fld("a", U8), Fld("b", U8), Fld("c", U16, seek=("rewind", None), endian="big")])
    D("SeekX", [Fld("o", U8, hint=(1, 6)), Fld("b", U8, seek=("start", F("o"))), Fld("c", U8, seek=("current", F("o") - 3))])
    D("SeekXS", [Fld("o", I8, hint=(1, 6)), Fld("b", U8, seek=("start", F("o"))), Fld("c", U8, seek=("current", F("o")))])
    D("SeekXE", [Fld("o", I8, hint=(-4, -1)), Fld("b", U8, seek=("end", F("o"))), Fld("c", U8)])
    D("SeekBits", [Fld("a", U8, bits=4), Fld("b", U8, bits=4), Fld("c", U8, seek=("start", L(3)), bits=4), Fld("d", U8, bits=4)])
    D("SeekTop", [Fld("a", U8), Fld("b", U8)], seek=("start", L(2)))
    D("SeekTopR", [Fld("a", U8), Fld("b", U8)], seek=("rewind", None))
    D("SeekTopC", [Fld("a", U8), Fld("b", U8)], seek=("current", L(1)))
    D("SeekTopE", [Fld("a", U8), Fld("b", U8)], seek=("end", L(-2)))
    st = D("SeekIn", [Fld("a", U8)], seek=("current", L(1)))
    D("SeekVec", [Fld("n", U8, hint=(0, 3)), Fld("v", VEC(N(st)), count=F("n")), Fld("z", U8)])
    D("SeekVecB", [Fld("n", U8, hint=(0, 3)), Fld("v", VEC(N(st)), bytes_read=F("n") * 2), Fld("z", U8)])
    # elements which seek, after the check for the end has looked at the first byte of each
    D("SeekVecA", [Fld("h", U8), Fld("v", VEC(N(st)), read_all=True)])
    s2 = D("SeekIn2", [Fld("a", U8), Fld("b", U8, seek=("current", L(2))), Fld("c", U8, seek=("current", L(-2)))])
    D("SeekVecA2", [Fld("v", VEC(N(s2)), read_all=True)])
    s3 = D("SeekIn3", variants=[Var("A", [Fld("x", U16, seek=("current", L(1)), endian="big")], id=("1", "Val::N(1)")), Var("B", [Fld("x", U8)], id=("2", "Val::N(2)"), default=True)], id_type=U8)
    D("SeekVecA3", [Fld("v", VEC(N(s3)), read_all=True)])
    s4 = D("SeekIn4", [Fld("a", U8, seek=("current", L(0))), Fld("b", U8)], derives=["PartialEq", "Eq", "Hash"])
    D("SeekVecA4", [Fld("v", VEC(N(s4)), read_all=True)])
    D("SeekSetA", [Fld("v", SET(N(s4)), read_all=True)])
    # elements which seek to before their collection
    s5 = D("SeekIn5", [Fld("a", U8, seek=("start", L(0))), Fld("b", U8)], derives=["PartialEq", "Eq", "Hash"])
    s6 = D("SeekIn6", [Fld("a", U8), Fld("b", U8, seek=("current", L(-3)))], derives=["PartialEq", "Eq", "Hash"])
    D("SeekBackV", [Fld("x", U16), Fld("n", U8, hint=(0, 3)), Fld("v", VEC(N(s5)), count=F("n")), Fld("z", U8)])
    D("SeekBackW", [Fld("x", U16), Fld("n", U8, hint=(0, 3)), Fld("v", VEC(N(s6)), count=F("n")), Fld("z", U8)])
    D("SeekBackS", [Fld("x", U16), Fld("n", U8, hint=(0, 1)), Fld("v", SET(N(s5)), count=F("n")), Fld("z", U8)])
    D("SeekBackM", [Fld("x", U16), Fld("n", U8, hint=(0, 1)), Fld("v", MAP(U8, N(s5)), count=F("n")), Fld("z", U8)])
    D("SeekHuge", [Fld("o", U64, endian="little", hint=(8, 12)), Fld("b", U8, seek=("start", F("o")))])
    D("SeekHuge2", [Fld("o", I128, endian="little", hint=(0, 4)), Fld("b", U8, seek=("current", F("o"))), Fld("c", U8, seek=("start", F("o")))])
    D("SeekPad", [Fld("a", U8, bits=3), Fld("b", U8, bits=5), Fld("c", U8, seek=("start", L(1)), pad_bytes_before=1, pad_bytes_after=1), Fld("d", U8)])
    D("SeekOff", [Fld("a", U8), Fld("b", U8, seek=("start", L(3))), Fld("v", VEC(U8), count=BYTEOFF % 5)])
    # offsets after a seek, where reading and writing have to agree
    D("OffSeek", [Fld("a", U16, endian="little"), Fld("b", U8, seek=("start", L(5)), **{"assert": BYTEOFF.eq(5)}), Fld("c", U8, seek=("current", L(-3)), **{"assert": BYTEOFF.eq(3)}), Fld("d", U8, **{"assert": BITOFF.eq(32)}), Fld("e", U8, seek=("current", L(2)), assert_eq=BYTEOFF)])
    D("OffSeekR", [Fld("a", U16, endian="little"), Fld("b", U8, bits=3, seek=("rewind", None), **{"assert": BITOFF.eq(0)}), Fld("c", U8, bits=5, **{"assert": BITOFF.eq(3)}), Fld("d", U8, **{"assert": BYTEOFF.eq(1)})])
    offsx = D("OffSeekX", [Fld("x", U8, skip="all", cond=(C("o") % 2).eq(1), default=("int", L(0))), Fld("v", VEC(U8), count=C("o") % 3), Fld("w", U8)], ctx=[("o", "usize")])
    D("OffSeekCtx", [Fld("n", U8, hint=(0, 6)), Fld("v", N(offsx), seek=("start", F("n") + 1), ctx=[(BYTEOFF, "usize")]), Fld("w", N(offsx), seek=("current", L(1)), ctx=[(BITOFF // 8, "usize")]), Fld("y", U8, bits=4, seek=("current", L(1))), Fld("z", U8, bits=4, **{"assert": (BITOFF % 8).eq(4)})])
    D("OffSeekSkip", [Fld("n", U8, hint=(0, 3)), Fld("v", VEC(U8), count=F("n"), seek=("current", L(2))), Fld("x", U16, skip="all", cond=(BYTEOFF % 2).eq(1), default=("int", L(7)), endian="big"), Fld("z", U8, **{"assert": BYTEOFF.ge(3)})])
    D("OffSeekPad", [Fld("a", U8), Fld("b", U8, seek=("start", L(4)), pad_bytes_before=2, pad_bytes_after=1, assert_eq=BYTEOFF), Fld("c", VEC(U8), count=BYTEOFF % 4)])
    D("SeekE2", variants=[Var("A", [Fld("x", U8, seek=("start", L(3)))], id=("1", "Val::N(1)")), Var("B", [Fld("x", U8, seek=("current", L(1)))], id=("2", "Val::N(2)"))], id_type=U8)
    # custom functions
    D("Custom", [Fld("k", U8), Fld("x", U8, reader=("custom::rd_xor(deku::reader)", "m_rd_xor"), writer=("custom::wr_xor(deku::writer, x)", "m_wr_xor")), Fld("y", U16, reader=("custom::rd_key(deku::reader, *k)", "m_rd_key"), writer=("custom::wr_key(deku::writer, *y, *k)", "m_wr_key")), Fld("z", U8)])
    D("CustomB", [Fld("p", U8, bits=3), Fld("x", U8, reader=("custom::rd_five(deku::reader)", "m_rd_five"), writer=("custom::wr_five(deku::writer, *x)", "m_wr_five")), Fld("z", U8)])
    D("CustomV", [Fld("a", VEC(U8), reader=("custom::rd_blob(deku::reader)", "m_rd_blob"), writer=("custom::wr_blob(deku::writer, a)", "m_wr_blob")), Fld("z", U8)])
    D("CustomC", [Fld("k", U8, **K), Fld("x", U8, cond=F("k").gt(1), default=("int", L(6)), reader=("custom::rd_xor(deku::reader)", "m_rd_xor"), writer=("custom::wr_xor(deku::writer, x)", "m_wr_xor")), Fld("z", U8)])
    D("CustomR", [Fld("x", U8, reader=("custom::rd_xor(deku::reader)", "m_rd_xor")), Fld("z", U8)])
    D("CustomW", [Fld("x", U8, writer=("custom::wr_xor(deku::writer, x)", "m_wr_xor")), Fld("z", U8)])
    D("CustomP", [Fld("x", U8, pad_bytes_before=1, pad_bits_after=4, reader=("custom::rd_xor(deku::reader)", "m_rd_xor"), writer=("custom::wr_xor(deku::writer, x)", "m_wr_xor"), magic=b"\x33"), Fld("z", U8, bits=4)])
    D("Mapped", [Fld("a", U16, map=("custom::map_double", U8, "m_map_double")), Fld("b", U16, endian="big", map=("custom::map_even", U16, "m_map_even")), Fld("z", U8)])
    D("MapPair", [Fld("a", U16, endian="big", map=("custom::map_pair", TUP(U8, U8), "m_map_pair")), Fld("n", U8, **K), Fld("s", U32, count=F("n"), map=("custom::map_sum", VEC(U8), "m_map_sum"), bits=8, endian="big"), Fld("z", U8)])
    D("MapBitsC", [Fld("a", U8, bits=4, map=("custom::map_same", U8, "m_map_same")), Fld("b", U8, bits=4, cond=F("a").gt(3), default=("int", L(2)), map=("custom::map_same", U8, "m_map_same")), Fld("z", U8, map=("custom::map_same", U8, "m_map_same"), **{"assert": F("z").lt(250)})])
    return z

# ------------------------------------------------------------------ random

class Gen:
    def __init__(self, rng, prefix):
        self.r, self.p, self.n, self.out = rng, prefix, 0, []

    def name(self, k):
        self.n += 1
        return f"{self.p}{k}{self.n}"

    def style(self):
        r = self.r
        return dict(endian=r.choice([None, "little", "big", "little", "big"]), order=r.choice([None, None, None, "msb", "lsb", "lsb"]))

    def prim(self):
        r = self.r
        return I(r.choice(["u8", "u8", "u8", "u16", "u16", "u32", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "usize", "isize"]))

    def scalar(self, st, plain_ctx=False):
        """type and attributes of a scalar field"""
        r = self.r
        t = self.prim()
        at = {}
        x = r.random()
        if x < 0.30:
            n = r.randint(1, t.w)
            if t.s and st["order"] == "lsb" and n > 8 and st["endian"] != "little":
                n = n // 8 * 8
            at["bits"] = n
            if t.w == 8 and r.random() < .5: at["bits"] = r.randint(1, 7)
        elif x < 0.40 and t.w > 8 and (st["order"] is None or st["endian"] is not None):
            at["bytes"] = r.randint(1, t.w // 8)
        elif x < 0.48:
            t = BOOL
            if r.random() < .5: at["bits"] = r.choice([1, 1, 2, 4])
        elif x < 0.53:
            t = r.choice([F32, F64])
        elif x < 0.58:
            if st["order"] is None or st["endian"] is not None:
                t = NZ(t.rs)
                if st["endian"] is not None and (r.random() < .5 or st["order"] is not None):
                    at["bits"] = 8 * r.randint(1, t.w // 8)
        elif x < 0.61 and st["order"] is None and st["endian"] is None:
            t = CSTR
        return t, at

    def fields(self, st, depth, prefix="f", stored=None, allow_all=True):
        r = self.r
        fs = []
        ints = []
        if stored is not None: fs.append(stored)
        k = r.randint(1, 6)
        for j in range(k):
            n = f"{prefix}{len(fs)}"
            x = r.random()
            at = {}
            if x < 0.36:
                t, at = self.scalar(st)
            elif x < 0.44:
                t0, at = self.scalar(st)
                if t0.kind == "cstr": t0 = U8
                t = r.choice([lambda: ARR(t0, r.randint(1, 4)), lambda: TUP(t0, t0), lambda: OPT(t0), lambda: BOX(t0), lambda: ARR(ARR(t0, 2), 2)])()
            elif x < 0.56 and depth > 0:
                t = self.named(st, depth - 1)
                if r.random() < .3: t = r.choice([lambda: ARR(t, 2), lambda: BOX(t), lambda: TUP(t, t)])()
            elif x < 0.80:
                # a counted collection
                ln = Fld(n, I(r.choice(["u8", "u8", "u16", "u32"])), hint=(0, r.choice([3, 6, 9])))
                if st["order"] is not None or r.random() < .3:
                    ln.at["bits"] = r.choice([8, 8, 5, 4])
                    if ln.at["bits"] == 4: ln.at["hint"] = (0, 7)
                fs.append(ln)
                n2 = f"{prefix}{len(fs)}"
                e, at = self.elem(st, depth)
                K = r.choice([VEC, VEC, VEC, BOXS, ARCS])
                t = K(e)
                y = r.random()
                sz = at.get("bits") or (8 * at["bytes"] if "bytes" in at else e.size)
                if y < .6 or sz is None:
                    at["count"] = F(n) if r.random() < .7 else F(n) + r.randint(0, 2)
                elif y < .8 and sz % 8 == 0:
                    at["bytes_read"] = F(n) * (sz // 8)
                else:
                    at["bits_read"] = F(n) * sz
                if r.random() < .3:
                    ln.at["update"] = LEN(n2)
                n = n2
            elif x < 0.84:
                t = VEC(r.choice([U8, I8]) if r.random() < .7 else U16)
                at["until"] = ELEM.eq(r.choice([0, 1]))
            elif x < 0.90 and ints:
                base, bat = self.scalar(st)
                if base.kind == "cstr": base, bat = U8, {}
                t, at = OPT(base), bat
                at["cond"] = (F(r.choice(ints)) & 3).ge(r.randint(1, 2))
            elif x < 0.94:
                t, at = U8, dict(skip="all", default=("int", L(r.randint(0, 200))))
            else:
                t, at = self.scalar(st)
                if t.kind == "int" and "bits" not in at and "bytes" not in at:
                    at["hint"] = (3, 90)
                    at["assert"] = F(n).ge(3).land(F(n).le(90))
            if r.random() < .10:
                key = r.choice(["pad_bits_before", "pad_bytes_before", "pad_bits_after", "pad_bytes_after"])
                at[key] = r.randint(1, 3)
            if r.random() < .05:
                at["magic"] = bytes(r.randrange(256) for _ in range(r.randint(1, 3)))
            if t.kind == "int" and not t.s and "bits" not in at and "skip" not in at: ints.append(n)
            fs.append(Fld(n, t, **at))
        if allow_all and r.random() < .12:
            e, at = self.elem(st, 0)
            at["read_all"] = True
            fs.append(Fld(f"{prefix}{len(fs)}", VEC(e), **at))
        return fs

    def elem(self, st, depth):
        r = self.r
        if depth > 0 and r.random() < .35:
            return self.named(st, depth - 1), {}
        t, at = self.scalar(st)
        if t.kind == "cstr": t, at = U16, {}
        if r.random() < .2: t = ARR(t, 2)
        elif r.random() < .2: t = TUP(t, U8)
        at.pop("hint", None)
        at.pop("assert", None)
        return t, at

    def wide(self, fs, prefix):
        """the same, taking at least a bit: a collection of nothings is as long as its count says"""
        if not any(f.ty.kind in ("int", "bool", "float", "nz", "arr", "tup", "named") and not f.at.keys() & {"skip", "cond", "reader"} for f in fs):
            fs.append(Fld(f"{prefix}{len(fs)}", U8))
        return fs

    def ctx_for(self, st):
        c = []
        k = {}
        if st["endian"]:
            c.append(END); k["endian"] = "endian"
        if st["order"]:
            c.append(ORD); k["bit_order"] = "order"
        return c, k

    def named(self, st, depth):
        c, k = self.ctx_for(st)
        d = self.container(st, depth, c, k, entry=False)
        return N(d)

    def container(self, st, depth, c=(), k=None, entry=True):
        r = self.r
        if k is None:
            k = {}
            if st["endian"]: k["endian"] = st["endian"]
            if st["order"]: k["bit_order"] = st["order"]
        if r.random() < .1: k["magic"] = bytes(r.randrange(256) for _ in range(r.randint(1, 4)))
        if r.random() < .6:
            name = self.name("S")
            fs = self.fields(st, depth, allow_all=entry)
            d = Decl(name, fs if entry else self.wide(fs, "f"), ctx=list(c), entry=entry, **k)
        else:
            name = self.name("E")
            it = I(r.choice(["u8", "u8", "u8", "u16", "u32", "i8", "i16"]))
            kw = {}
            w = it.w
            if r.random() < .4:
                kw["bits"] = w = r.randint(3, min(8, it.w))
            elif it.w > 8 and (st["order"] is None or st["endian"] is not None) and r.random() < .3:
                kw["bytes"] = r.randint(1, it.w // 8)
                w = 8 * kw["bytes"]
            top = (1 << (w - 1)) - 1
            vs, used = [], set()
            nv = r.randint(1, 4)
            lo = 0
            for i in range(nv):
                while True:
                    x = r.randint(0, min(top, 60))
                    if x not in used: break
                    if len(used) > min(top, 60): break
                if x in used: break
                used.add(x)
                vs.append(Var(f"V{i}", self.fields(st, max(0, depth - 1), prefix="g", allow_all=False) if r.random() < .85 else [], id=(str(x), f"Val::N({x})")))
            if r.random() < .5:
                full = r.random() < .6
                if full:
                    pat = ("_", [(-(1 << 126), 1 << 126)])
                else:
                    a = r.randint(0, top); z_ = r.randint(a, top)
                    pat = (f"{a}..={z_}", [(a, z_)])
                vs.append(Var("P", self.fields(st, 0, prefix="g", stored=Fld("g0", it), allow_all=False), pat=pat))
            if st["endian"] and w % 8 == 0 and st["order"] is None and r.random() < .2:
                kw["id_endian"] = r.choice(["little", "big"])
            d = Decl(name, variants=vs, ctx=list(c), id_type=it, entry=entry, **kw, **k)
        self.out.append(d)
        return d

def random_zoo(seed, n, prefix):
    rng = random.Random(seed)
    g = Gen(rng, prefix)
    for _ in range(n):
        g.container(g.style(), 2)
    return g.out

class Rich(Gen):
    """Few fields, many attributes: what one attribute does to another"""

    def static(self, fs):
        """the size of these fields is known when compiling"""
        def ok(t):
            return t.kind in ("int", "nz", "bool", "float") or t.kind in ("arr", "tup") and all(ok(i) for i in t.inner)
        return all(ok(f.ty) and not any(k in f.at for k in ("count", "temp", "seek", "reader", "writer", "map", "bits_read", "bytes_read", "until", "read_all"))
                   and all(not isinstance(f.at.get(k), X) or f.at[k].op == "l" for k in ("bits", "bytes", "pad_bits_before", "pad_bytes_before", "pad_bits_after", "pad_bytes_after"))
                   and not ("cond" in f.at and f.at.get("skip")) and f.at.get("skip") in (None, "all")
                   and f.ty.size is not None for f in fs)

    def expr(self, ints, c):
        """a small number which is never negative"""
        r = self.r
        x = [lambda: L(r.randint(0, 3))]
        if ints: x += [lambda: F(r.choice(ints)) % r.randint(2, 5)] * 4 + [lambda: (F(r.choice(ints)) + r.randint(0, 9)) & 3]
        if len(ints) > 1: x += [lambda: (F(r.choice(ints)) % 3) * (F(r.choice(ints)) % 3)]
        if "k" in [n for n, _ in c]: x += [lambda: C("k") % 4] * 2
        return r.choice(x)()

    def truth(self, ints, c):
        e = self.expr(ints, c)
        t = self.r.choice([e.ge(1), e.lt(2), e.ne(0), e.eq(1), e.le(1)])
        if self.r.random() < .2:
            o = self.expr(ints, c).ge(1)
            t = self.r.choice([t.land(o), t.lor(o)])
        return t

    def rich(self, st, prefix, stored=None, c=(), seeks=False, temps=True, depth=1):
        r, fs, ints, noattr = self.r, [], [], set()
        if stored is not None: fs.append(stored)
        for _ in range(r.randint(1, 5)):
            n = f"{prefix}{len(fs)}"
            at = {}
            x = r.random()
            my = st
            if x < .5:
                if r.random() < .25:
                    my = dict(endian=r.choice(["little", "big"]), order=r.choice(["msb", "lsb", st["order"]]))
                    at["endian"] = my["endian"]
                    if my["order"] != st["order"]: at["bit_order"] = my["order"]
                t, a2 = self.scalar(my)
                at.update(a2)
                if t.kind == "cstr": t, at = U8, {}
                if r.random() < .15 and t.kind != "bool": t = r.choice([lambda: ARR(t, 2), lambda: TUP(t, t), lambda: BOX(t)])()
            elif x < .62:
                f = self.custom(n, fs)
                t, at = f
            elif x < .70 and depth > 0:
                t, at = self.inner(st, ints, c)
            elif x < .90:
                e, at = self.elem(st, 0)
                sz = at.get("bits") or (8 * at["bytes"] if "bytes" in at else e.size)
                K = r.choice([VEC, VEC, BOXS, ARCS])
                t = K(e)
                y = r.random()
                if y < .35 and temps and stored is None:
                    # counted by a field of its own
                    ln = Fld(n, I(r.choice(["u8", "u16", "u32"])), temp=True, temp_value=LEN(f"{prefix}{len(fs) + 1}"), hint=(0, 6))
                    if r.random() < .3: ln.at["bits"] = r.choice([4, 8])
                    if r.random() < .2: ln.at["magic"] = bytes([r.randrange(256)])
                    if r.random() < .2: ln.at[r.choice(["pad_bits_before", "pad_bytes_after"])] = r.randint(1, 2)
                    fs.append(ln)
                    at["count"] = F(n)
                    n = f"{prefix}{len(fs)}"
                elif y < .7 or sz is None:
                    at["count"] = self.expr(ints, c)
                    if r.random() < .2: at["count"] = r.choice([BYTEOFF % 4, BITOFF % 3])
                elif sz % 8 == 0 and r.random() < .6:
                    at["bytes_read"] = self.expr(ints, c) * (sz // 8)
                else:
                    at["bits_read"] = self.expr(ints, c) * sz
            else:
                t, at = VEC(U8), dict(until=r.choice([ELEM.eq(0), ELEM.lt(100)]))
            self.decorate(n, t, at, ints, c, st, seeks)
            if t.kind == "int" and t.rs[0] in "ui" and t.w <= 64 and not t.s and not at.keys() & {"skip", "temp", "map"}:
                if r.random() < .8: ints.append(n)
                if "hint" not in at and r.random() < .3: at["hint"] = (0, 3)
            fs.append(Fld(n, t, **at))
        if r.random() < .3:
            have = [f for f in fs if f.ty.kind == "int" and f.ty.rs[0] in "ui" and not f.at.keys() & {"temp", "skip", "map", "assert", "assert_eq", "cond"} and not f.ty.s and f is not stored and f.at.get("bits", 8) >= 4]
            lists = [f.name for f in fs if f.ty.kind == "list" and not f.at.get("skip")]
            others = [f.name for f in fs if f in have or f.name in ints and f.at.get("bits", 8) >= 4]
            for f in r.sample(have, min(len(have), r.randint(1, 3))):
                x = ([lambda: LEN(r.choice(lists)) & 15] * 2 if lists else []) + ([lambda: (F(r.choice(others)) & 15) + r.randint(0, 99), lambda: F(r.choice(others)) & r.randint(1, 9)] if others else []) + [lambda: L(r.randint(0, 15))]
                f.at["update"] = r.choice(x)()
        return fs

    def custom(self, n, fs):
        r = self.r
        x = r.random()
        xor = dict(reader=("custom::rd_xor(deku::reader)", "m_rd_xor"), writer=(f"custom::wr_xor(deku::writer, {n})", "m_wr_xor"))
        five = dict(reader=("custom::rd_five(deku::reader)", "m_rd_five"), writer=(f"custom::wr_five(deku::writer, *{n})", "m_wr_five"))
        if x < .3: return U8, xor
        if x < .5: return U8, five
        if x < .6: return U32, dict(reader=("custom::rd_at(deku::reader, deku::bit_offset, deku::byte_offset)", "m_rd_at"), writer=(f"custom::wr_at(deku::writer, *{n}, deku::bit_offset, deku::byte_offset)", "m_wr_at"))
        if x < .7: return U8, dict(map=("custom::map_same", U8, "m_map_same"), bits=r.randint(1, 8))
        if x < .85: return U16, dict(map=("custom::map_double", U8, "m_map_double"))
        return U16, dict(map=("custom::map_even", U16, "m_map_even"), endian=r.choice(["little", "big"]))

    def inner(self, st, ints, c):
        """a type of its own, given the orders and a number"""
        r = self.r
        cc, k = self.ctx_for(st)
        at = {}
        if r.random() < .6:
            cc = cc + [("k", "u8")]
            at["ctx"] = [(self.expr(ints, c), "u8")]
        name = self.name("I")
        if r.random() < .4:
            vs = [Var(f"V{i}", self.wide(self.rich(st, "g", c=cc, temps=False, depth=0), "g"), id=(str(i), f"Val::N({i})")) for i in range(r.randint(1, 3))]
            if r.random() < .5 and "k" in [n for n, _ in cc]:
                d = Decl(name, variants=vs, ctx=cc, id_ctx=("k", C("k"), "u8"), entry=False, **k)
            else:
                vs.append(Var("D", [], default=True, id=("9", "Val::N(9)")))
                d = Decl(name, variants=vs, ctx=cc, id_type=U8, entry=False, **k)
        else:
            d = Decl(name, self.wide(self.rich(st, "f", c=cc, depth=0), "f"), ctx=cc, entry=False, **k)
        self.out.append(d)
        t = N(d)
        if r.random() < .2: t = r.choice([lambda: ARR(t, 2), lambda: BOX(t)])()
        return t, at

    def decorate(self, n, t, at, ints, c, st, seeks):
        r = self.r
        plain = t.kind == "int" and t.rs[0] in "ui"
        custom = bool(at.keys() & {"map", "reader"})
        if r.random() < .22:
            # left out, or read only sometimes
            how = r.choice(["all", "all", "read", "write", "cond", "cond"])
            cond = r.random() < .6 or how == "cond"
            if how != "cond": at["skip"] = how
            if cond: at["cond"] = self.truth(ints, c)
            if plain and r.random() < .8: at["default"] = ("int", r.choice([L(r.randint(0, 3)), self.expr(ints, c)]))
            if t.kind not in ("int", "bool", "list", "float"):
                # no value to put there
                for k in ("skip", "cond", "default"): at.pop(k, None)
        if plain and not at.get("map"):
            y = r.random()
            small = (1 << (at.get("bits", t.w) - (1 if t.s else 0))) - 1
            if "default" in at or "skip" in at or "cond" in at: y /= 2
            if y < .12 and "reader" not in at:
                top = min(small, r.randint(2, 90))
                at["hint"] = (0, top)
                at["assert"] = r.choice([F(n).le(top), F(n).lt(top + 1), F(n).le(top).land(F(n).ge(0))])
            elif y < .2 and "reader" not in at:
                v = r.randint(0, min(small, 7))
                at["hint"] = (v, v)
                at["assert_eq"] = L(v)
            elif y < .25 and t.w == 8 and "reader" in at:
                at["assert"] = F(n).lt(200)
        if t.kind == "list" and "skip" not in at and r.random() < .1: at["assert"] = LEN(n).lt(r.randint(3, 9))
        for k, p in (("pad_bits_before", .1), ("pad_bytes_before", .06), ("pad_bits_after", .1), ("pad_bytes_after", .06)):
            if r.random() < p: at[k] = r.choice([L(r.randint(1, 9 if "bits" in k else 3)), self.expr(ints, c)])
        if r.random() < .12: at["magic"] = bytes(r.randrange(256) for _ in range(r.randint(1, 3)))
        if seeks and r.random() < .3:
            at["seek"] = r.choice([lambda: ("start", L(r.randint(0, 6))), lambda: ("current", L(r.randint(-1, 2))), lambda: ("current", L(0)), lambda: ("current", self.expr(ints, c)), lambda: ("start", self.expr(ints, c)), lambda: ("rewind", None), lambda: ("end", L(-r.randint(1, 3)))])()

    def entry(self):
        r = self.r
        st = self.style()
        k = {}
        if st["endian"]: k["endian"] = st["endian"]
        if st["order"]: k["bit_order"] = st["order"]
        if r.random() < .15: k["magic"] = bytes(r.randrange(256) for _ in range(r.randint(1, 4)))
        seeks = r.random() < .2
        if r.random() < .65:
            name = self.name("S")
            tup = r.random() < .2
            fs = self.rich(st, "field_" if tup else "f", seeks=seeks, temps=not tup)
            if r.random() < .15 and not seeks:
                e, at = (U8, {}) if r.random() < .4 else self.elem(st, 0)
                fs.append(Fld(("field_" if tup else "f") + str(len(fs)), VEC(e), read_all=True, **at))
            # a stream can be left behind its end, but then there is no rest of it
            if seeks: fs.append(Fld(("field_" if tup else "f") + str(len(fs)), U8))
            if seeks and r.random() < .3: k["seek"] = r.choice([("start", L(r.randint(0, 3))), ("current", L(r.randint(0, 2))), ("rewind", None)])
            d = Decl(name, fs, tuple_=tup, size="seek" not in k and self.static(fs), **k)
        else:
            name = self.name("E")
            it = I(r.choice(["u8", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32"]))
            kw, w = {}, it.w
            if r.random() < .3:
                kw["bits"] = w = r.randint(3, min(12, it.w))
                if it.s and w > 8: kw["bits"] = w = 8
            elif it.w > 8 and (st["order"] is None or st["endian"] is not None) and r.random() < .3:
                kw["bytes"] = r.randint(1, it.w // 8)
                w = 8 * kw["bytes"]
            top = min((1 << (w - 1)) - 1, 60)
            xs = r.sample(range(top + 1), min(top + 1, 4))
            vs = []
            for i, x in enumerate(xs[:r.randint(1, 4)]):
                tup = r.random() < .3
                vs.append(Var(f"V{i}", self.rich(st, "field_" if tup else "g", temps=False) if r.random() < .8 else [], id=(str(x), f"Val::N({x})"), tuple_=tup))
            y = r.random()
            if y < .4:
                a = r.randint(0, top); b = r.randint(a, top); e = r.randint(0, top)
                pat = r.choice([("_", [(-(1 << 127), (1 << 127) - 1)]), (f"{a}..={b}", [(a, b)]), (f"{e} | {a}..={b}", [(e, e), (a, b)]), (f"{a}..={b}", [(a, b)])])
                vs.insert(r.randint(0, len(vs)), Var("P", self.rich(st, "g", stored=Fld("g0", it), temps=False), pat=pat)) if pat[0] != "_" else vs.append(Var("P", self.rich(st, "g", stored=Fld("g0", it), temps=False), pat=pat))
            elif y < .6 and len(xs) > len(vs):
                x = xs[-1]
                vs.append(Var("D", self.rich(st, "g", temps=False), id=(str(x), f"Val::N({x})"), default=True))
            fs = [f for v in vs for f in (v.fields[1:] if v.pat else v.fields)]
            d = Decl(name, variants=vs, id_type=it, size=not kw.get("bytes") and self.static(fs), **kw, **k)
        self.out.append(d)

def rich_zoo(seed, n, prefix):
    g = Rich(random.Random(seed), prefix)
    for _ in range(n):
        g.entry()
    return g.out

def long_zoo():
    """What is longer than the pieces in which things are read, skipped and written"""
    z = []
    def D(*a, **k):
        d = Decl(*a, **k)
        z.append(d)
        return d
    few = [0, 1, 5, 17, 30]
    edge = [63, 64, 65, 66, 127, 128, 129, 191, 192]
    far = [4095, 4096, 4097, 4159, 4160, 4161, 8190, 8192, 8256, 8257, 12353]
    N = lambda *l: dict(hint=[x for p in l for x in p])
    D("Long8", [Fld("n", U16, endian="big", **N(few, few, edge, far)), Fld("v", VEC(U8), count=F("n")), Fld("z", U8)])
    D("Long8U", [Fld("p", U8, bits=3), Fld("n", U16, **N(few, few, edge, far[:3])), Fld("v", VEC(U8), count=F("n")), Fld("q", U8, bits=5)], endian="little")
    D("Long8L", [Fld("p", U8, bits=3), Fld("n", U16, bits=13, **N(few, edge)), Fld("v", VEC(U8), count=F("n")), Fld("q", U8, bits=5)], endian="little", bit_order="lsb")
    D("LongB", [Fld("n", U16, endian="little", **N(few, edge, far)), Fld("v", BOXS(U8), bytes_read=F("n")), Fld("m", U8, **N(few, edge)), Fld("w", VEC(U8), bits_read=F("m") * 8), Fld("z", U8)])
    D("Long16", [Fld("n", U16, endian="little", **N(few, edge, [2047, 2048, 2049])), Fld("v", VEC(U16), count=F("n"), endian="big"), Fld("z", U8)])
    D("LongA", [Fld("a", ARR(U8, 300)), Fld("p", U8, bits=4), Fld("b", ARR(U16, 70)), Fld("q", U8, bits=4)], endian="big")
    D("LongPadB", [Fld("n", U16, endian="little", **N(few, edge, [255, 256, 257, 511, 512, 1000])), Fld("a", U8, pad_bytes_before=F("n")), Fld("m", U8, **N(few, edge)), Fld("b", U8, pad_bytes_after=F("m")), Fld("z", U8)])
    D("LongPadb", [Fld("n", U16, endian="little", **N(few, edge, [255, 256, 257, 511, 512, 513, 1000])), Fld("a", U8, pad_bits_before=F("n"), bits=3), Fld("m", U8, **N(few, edge)), Fld("b", U8, pad_bits_after=F("m")), Fld("z", U8, bits=7)])
    D("LongSeek", [Fld("n", U16, endian="little", **N(few, edge, [4096, 5000])), Fld("a", U8, seek=("current", F("n"))), Fld("z", U8)])
    D("LongStr", [Fld("n", U8, **N(few[1:], edge)), Fld("s", CSTR, bytes=F("n")), Fld("z", U8)])
    return z

def variant_fn_zoo():
    """Variants read and written by functions of their own: what they do is told by their fields (vonly)"""
    z = []
    def D(*a, **k):
        d = Decl(*a, **k)
        z.append(d)
        return d
    V = Var
    X5 = dict(reader=("", "m_rd_xor"), writer=("", "m_wr_xor"), vonly=1)
    F5 = dict(reader=("", "m_rd_five"), writer=("", "m_wr_five"), vonly=1)
    n = lambda v: (str(v), f"Val::N({v})")
    def xor(name, idw, tup=False):
        to = f"{name}(x)" if tup else f"{name} {{ x }}"
        return dict(reader=f"custom::rd_xor(deku::reader).map(|x| Self::{to})", writer=f"{idw}.and_then(|_| custom::wr_xor(deku::writer, {'field_0' if tup else 'x'}))")
    w8 = lambda v: f"{v}u8.to_writer(deku::writer, ())"
    five = lambda name, idw: dict(reader=f"custom::rd_five(deku::reader).map(|x| Self::{name} {{ x }})", writer=f"{idw}.and_then(|_| custom::wr_five(deku::writer, *x))")
    a = D("VarFn", variants=[
        V("A", [Fld("x", U8, **X5)], id=n(1), **xor("A", w8(1))),
        V("B", [Fld("x", U8, **F5)], id=n(2), **five("B", w8(2))),
        V("C", [Fld("x", U16, endian="big")], id=n(3)),
        V("D", [Fld("x", U8, **X5)], id=n(0), default=True, **xor("D", w8(0))),
    ], id_type=U8)
    D("VarFnT", variants=[
        V("A", [Fld("x", U8, **X5)], id=n(1), tuple_=True, **xor("A", w8(1), True)),
        V("B", [Fld("x", U8)], id=n(2), tuple_=True),
    ], id_type=U8)
    w16 = lambda v: f"{v}u16.to_writer(deku::writer, deku::ctx::Endian::Little)"
    D("VarFnM", variants=[
        V("A", [Fld("x", U8, **F5)], id=n(0x102), **five("A", w16(0x102))),
        V("B", [Fld("x", U8), Fld("y", U16)], id=n(0x201)),
        V("C", [Fld("x", U8, **X5)], id=n(7), **xor("C", w16(7))),
    ], id_type=U16, endian="little", magic=b"\x5a\x01")
    w3 = lambda v: f"{v}u8.to_writer(deku::writer, (deku::ctx::Endian::Big, deku::ctx::BitSize(3), deku::ctx::Order::Msb0))"
    b = D("VarFnBits", variants=[
        V("A", [Fld("x", U8, **F5)], id=n(1), **five("A", w3(1))),
        V("B", [Fld("x", U8, bits=5)], id=n(2)),
        V("C", [Fld("x", U8, **F5)], id=n(5), **five("C", w3(5))),
    ], id_type=U8, bits=3, endian="big", bit_order="msb")
    c = D("VarFnCtx", variants=[
        V("A", [Fld("x", U8, **X5)], id=n(1), **xor("A", "Ok::<(), DekuError>(())")),
        V("B", [Fld("x", U16, endian="little")], id=n(2)),
        V("C", [Fld("x", U8, **F5)], id=n(3), **five("C", "Ok::<(), DekuError>(())")),
    ], ctx=[("my_id", "u8")], id_ctx=("my_id", C("my_id"), "u8"))
    D("VarFnUse", [Fld("p", U8, bits=4), Fld("n", U8, bits=4, hint=(0, 3)), Fld("v", VEC(N(a)), count=F("n")), Fld("b", N(b)), Fld("z", U8)])
    D("VarFnUseC", [Fld("k", U8, hint=(1, 4)), Fld("e", N(c), ctx=[(F("k"), "u8")]), Fld("o", OPT(N(a)), cond=F("k").ge(2)), Fld("z", U8)])
    return z

def pairs_zoo():
    """Every pair of attributes, on one field behind a part of a byte, in every kind of container"""
    K = lambda: F("k")
    lit = lambda n: L(n)
    # attribute: what it sets for the field named n (in the style s)
    A = {
        "bits": lambda n, s: dict(bits=11),
        "bytes": lambda n, s: dict(bytes=3),
        "big": lambda n, s: dict(endian="big"),
        "little": lambda n, s: dict(endian="little"),
        "msb": lambda n, s: dict(bit_order="msb"),
        "lsb": lambda n, s: dict(bit_order="lsb"),
        "magic": lambda n, s: dict(magic=b"\xa5\x3c"),
        "pbb": lambda n, s: dict(pad_bits_before=K() + 1),
        "pBb": lambda n, s: dict(pad_bytes_before=1),
        "pba": lambda n, s: dict(pad_bits_after=3),
        "pBa": lambda n, s: dict(pad_bytes_after=K() % 2),
        "cond": lambda n, s: dict(cond=K().ge(2), default=("int", K() + 1)),
        "skip": lambda n, s: dict(skip="all", default=("int", lit(6))),
        "skipr": lambda n, s: dict(skip="read"),
        "skipw": lambda n, s: dict(skip="write"),
        "skipc": lambda n, s: dict(skip="all", cond=K().lt(2), default=("int", lit(2))),
        "skiprc": lambda n, s: dict(skip="read", cond=K().ne(1), default=("int", K() + 4)),
        "skipwc": lambda n, s: dict(skip="write", cond=K().lt(2)),
        "condn": lambda n, s: dict(cond=K().lt(2)),
        "assert": lambda n, s: dict(assert_=F(n).ne(9)),
        "assert_eq": lambda n, s: dict(assert_eq=K() + 1, hint=(1, 4)),
        "seek0": lambda n, s: dict(seek=("current", K() % 2)),
        "seeks": lambda n, s: dict(seek=("start", lit(2))),
        "seeke": lambda n, s: dict(seek=("end", lit(-10))),
        "map": lambda n, s: dict(map=("custom::map_wide", U32, "m_map_wide")),
        "reader": lambda n, s: dict(reader=("custom::rd_wide(deku::reader, *k)", "m_rd_wide")),
        "writer": lambda n, s: dict(writer=(f"custom::wr_wide(deku::writer, *{n}, *k)", "m_wr_wide")),
        "update": lambda n, s: dict(update=K() + 7),
        "temp": lambda n, s: dict(temp=True, temp_value=K() + 3),
        # types
        "arr": lambda n, s: dict(_t=ARR(U32, 2)),
        "tup": lambda n, s: dict(_t=TUP(U32, U32)),
        "box": lambda n, s: dict(_t=BOX(U32)),
        "opt": lambda n, s: dict(_t=OPT(U32), cond=K().ne(1)),
        "vec": lambda n, s: dict(_t=VEC(U32), count=K()),
        "boxs": lambda n, s: dict(_t=BOXS(U32), count=K()),
        "vbits": lambda n, s: dict(_t=VEC(U32), bits_read=K() * 24, bits=24),
        "vbytes": lambda n, s: dict(_t=VEC(U32), bytes_read=K() * 3, bytes=3),
        "until": lambda n, s: dict(_t=VEC(U32), until=(ELEM & 3).ne(0)),
        "i32": lambda n, s: dict(_t=I32),
        "nz": lambda n, s: dict(_t=NZ("u32")),
        "v8": lambda n, s: dict(_t=VEC(U8), count=K()),
    }
    types = {k for k, v in A.items() if "_t" in v("x", None)}
    lists = {"vec", "boxs", "vbits", "vbytes", "until", "v8"}
    apart = [types, {"bits", "bytes", "vbits", "vbytes"}, {"big", "little"}, {"msb", "lsb"}, {"cond", "condn", "skip", "skipr", "skipw", "skipc", "skiprc", "skipwc", "opt", "temp"}, {"assert", "assert_eq"}, {"map", "reader"},
             {"seek0", "seeks", "seeke"}, {"temp", "update", "seek0"}, {"temp", "assert", "assert_eq", "seeks", "seeke"}]
    value = {"assert", "assert_eq", "cond", "condn", "skip", "skipr", "skipc", "skiprc", "skipwc", "temp", "update", "map", "reader", "writer"}  # of an integer
    def fits(a, b, s):
        if a == b or any(a in g and b in g for g in apart): return False
        both = {a, b}
        if both & types and both & (value - {"skip", "skipr", "skipc", "skiprc", "skipwc", "cond", "condn", "map", "writer"}): return "i32" in both and not both & {"reader", "writer"}
        if both & types and both & {"map", "reader", "writer"}: return False
        if both & {"reader"} and both & {"bits", "bytes", "big", "little", "msb", "lsb"}: return False
        if both & {"map"} and both & {"assert_eq"}: return False
        sized = both & {"bytes", "vbytes", "nz"}
        endian = s["endian"] or both & {"big", "little"}
        order = s["order"] or both & {"lsb", "msb"}
        if sized and order and not endian: return False
        if "nz" in both and both & {"bits", "bytes"} and not endian: return False
        if "nz" in both and order and "bytes" not in both and "bits" not in both: return False
        if "nz" in both and both & {"cond", "condn", "skip", "skipr", "skipw", "skipc", "skiprc", "skipwc"}: return False
        if both & {"box"} and both & {"cond", "condn", "skip", "skipr", "skipw", "skipc", "skiprc", "skipwc"}: return False
        if both & {"v8"} and both & {"bytes"}: return False
        return True
    styles = [dict(endian=None, order=None), dict(endian="big", order="lsb"), dict(endian="little", order="lsb"), dict(endian="little", order="msb"), dict(endian=None, order="lsb"), dict(endian="big", order=None)]
    out, names = [], sorted(A)
    def field(n, group, s):
        at, t = {}, U32
        for a in group:
            at.update(A[a](n, s))
        t = at.pop("_t", t)
        if "assert_" in at: at["assert"] = at.pop("assert_")
        if t.kind not in ("int",) or t.rs[0] not in "ui":
            at.pop("default", None)
        if "count" in at or "bits_read" in at or "bytes_read" in at or "until" in at: at.pop("hint", None)
        return Fld(n, t, **at)
    for si, s in enumerate(styles):
        k = {}
        if s["endian"]: k["endian"] = s["endian"]
        if s["order"]: k["bit_order"] = s["order"]
        for seeks in (False, True):
            todo = [(a, b) for i, a in enumerate(names) for b in names[i + 1:] if fits(a, b, s) and bool({a, b} & {"seek0", "seeks", "seeke"}) == seeks]
            layout = {"bytes", "bits", "vbits", "vbytes", "lsb", "msb", "big", "little"}
            if si > 1: todo = [p for p in todo if set(p) <= layout or sum(map(ord, "".join(p))) % 4 == si - 2]
            # what turns the bit order within a byte, which is not judged when written, stays together
            other = "msb" if s["order"] == "lsb" else "lsb"
            # and so does what makes a read fail, in smaller types
            def turns(p): return (other in p, s["order"] == "lsb" and "magic" in p, bool(set(p) & {"assert", "assert_eq", "magic"}))
            for kind in sorted({turns(p) for p in todo}):
                these = [p for p in todo if turns(p) == kind]
                per = 3 if seeks or kind[2] else 6
                for i in range(0, len(these), per):
                    fs = [Fld("p", U8, bits=3), Fld("k", U8, bits=2, hint=(0, 3))]
                    for g in these[i:i + per]:
                        if len(fs) > 2: fs.append(Fld(f"f{len(fs)}", U8, bits=7))
                        fs.append(field(f"f{len(fs)}", g, s))
                    fs.append(Fld(f"f{len(fs)}", U8, bits=7))
                    fs.append(Fld(f"f{len(fs)}", U8))
                    out.append(Decl(f"P{len(out)}", fs, **k))
    return out

def zoos():
    yield "zoo_a", zoo_a()
    yield "zoo_b", zoo_b()
    yield "zoo_c", zoo_c()
    yield "zoo_d", random_zoo(101, 36, "D")
    yield "zoo_e", random_zoo(202, 36, "E")
    yield "zoo_f", random_zoo(303, 36, "F")
    yield "zoo_g", rich_zoo(404, 70, "G")
    pairs = pairs_zoo()
    for i in range(3):
        yield f"zoo_p{i}", pairs[i::3] + ([long_zoo, variant_fn_zoo][i - 1]() if i else [])

if __name__ == "__main__":
    here = Path(__file__).parent
    if len(sys.argv) > 1 and sys.argv[1] == "--fresh":
        seed, n, d = int(sys.argv[2]), int(sys.argv[3]), Path(sys.argv[4])
        d.mkdir(parents=True, exist_ok=True)
        (d / "gen.rs").write_text(emit(random_zoo(seed, n // 2, "R") + rich_zoo(seed, n // 2, "Q")))
    else:
        for name, decls in zoos():
            p = here / name / "src"
            p.mkdir(parents=True, exist_ok=True)
            (p / "gen.rs").write_text(emit(decls))
            (p / "lib.rs").write_text("mod gen;\npub use gen::entries;\n")
            (here / name / "Cargo.toml").write_text(f"""[package]
name = "{name}"
version = "0.1.0"
edition = "2021"

[dependencies]
deku = {{ path = "/repo" }}
vcore = {{ path = "../core" }}
""")
            print(name, len(decls), "types")
