//! Sequences of operations of Reader, Writer and NoSeek against the model of a bit stream
use super::{par, Meta};
use crate::diff::{class, fatal};
use crate::props::scalar::{mord, ord};
use deku::bitvec::{BitVec, Msb0};
use deku::ctx::Order;
use deku::prelude::*;
use deku::reader::ReaderRet;
use std::io::{Read, Seek, SeekFrom, Write};
use vcore::model::{l, Env, Rd, SeekSpec, Wr, ME, O};
use vcore::mon::Mon;
use vcore::ops::{guard, Er};
use vcore::report::{hex, Report};
use vcore::rng::Rng;

#[derive(Clone, Copy, Debug)]
enum ROp {
    Bits(usize, O),
    BitsInto(usize, O),
    Bytes(usize, O),
    Const(usize, O),
    ConstInto(usize, O),
    Skip(usize, O),
    End,
    Seek(SeekFrom),
    Position,
}

/// what an operation gave
#[derive(Clone, Debug, PartialEq, Eq)]
enum Out {
    Bits(Vec<bool>),
    Bytes(Vec<u8>),
    End(bool),
    At(u64),
    Done,
}

fn order(rng: &mut Rng) -> O {
    if rng.bool() {
        O::Msb
    } else {
        O::Lsb
    }
}

fn seek_from(rng: &mut Rng, len: usize) -> SeekFrom {
    let n = match rng.below(8) {
        0 => 0,
        1 => -(rng.below(len + 3) as i64),
        2 => len as i64,
        _ => rng.below(len + 4) as i64,
    };
    match rng.below(4) {
        0 => SeekFrom::Start(n.unsigned_abs()),
        1 => SeekFrom::End(if rng.chance(4, 5) { -n.abs() } else { n }),
        _ => SeekFrom::Current(if rng.bool() { n % 5 } else { n }),
    }
}

fn spec(s: SeekFrom) -> SeekSpec {
    match s {
        SeekFrom::Start(n) => SeekSpec::Start(l(i128::from(n))),
        SeekFrom::Current(n) => SeekSpec::Current(l(i128::from(n))),
        SeekFrom::End(n) => SeekSpec::End(l(i128::from(n))),
    }
}

fn rop(rng: &mut Rng, len: usize) -> ROp {
    let small = |rng: &mut Rng| match rng.below(12) {
        0 => 0,
        1 => rng.range(60, 140),
        2 => 8 * rng.below(9),
        3 => 8,
        _ => rng.below(20),
    };
    let o = order(rng);
    match rng.below(12) {
        0 | 1 => ROp::Bits(small(rng), o),
        2 | 3 => ROp::BitsInto(small(rng), o),
        4 => ROp::Bytes(small(rng) / 4, o),
        5 => ROp::Const(*rng.pick(&[0, 1, 2, 4, 8, 16]), o),
        6 => ROp::ConstInto(*rng.pick(&[0, 1, 2, 4, 8, 16]), o),
        7 => ROp::Skip(if rng.chance(1, 10) { rng.below(4000) } else { small(rng) }, o),
        8 | 9 => ROp::End,
        10 => ROp::Seek(seek_from(rng, len)),
        _ => {
            if rng.chance(1, 3) {
                ROp::Position
            } else {
                ROp::Skip(small(rng), o)
            }
        }
    }
}

fn to_bytes(seq: &[bool], o: O) -> Vec<u8> {
    seq.chunks(8)
        .map(|c| {
            c.iter().enumerate().fold(0u8, |a, (i, b)| {
                a | u8::from(*b)
                    << match o {
                        O::Msb => 7 - i,
                        O::Lsb => i,
                    }
            })
        })
        .collect()
}

struct Ref<'a> {
    rd: Rd<'a>,
    data: &'a [u8],
    /// `end` looked at the next byte
    looked: bool,
}

impl Ref<'_> {
    fn rest(&self) -> Vec<bool> {
        if self.looked {
            let b = self.data[self.rd.bytes_touched()];
            (0..8).map(|i| b >> (7 - i) & 1 == 1).collect()
        } else {
            self.rd.rest_window()
        }
    }
    fn at(&self) -> u64 {
        self.rd.bytes_touched() as u64 + u64::from(self.looked)
    }
    fn take(&mut self, n: usize, o: O) -> Result<Vec<bool>, ME> {
        let r = self.rd.take(n, o)?;
        if n != 0 {
            self.looked = false;
        }
        Ok(r)
    }
    fn apply(&mut self, op: ROp) -> Result<Out, ME> {
        Ok(match op {
            ROp::Bits(n, o) | ROp::BitsInto(n, o) => {
                let mut b = self.take(n, o)?;
                if o == O::Lsb {
                    b.reverse();
                }
                Out::Bits(b)
            }
            ROp::Bytes(n, o) | ROp::Const(n, o) | ROp::ConstInto(n, o) => Out::Bytes(to_bytes(&self.take(n * 8, o)?, o)),
            ROp::Skip(n, o) => {
                self.take(n, o)?;
                Out::Done
            }
            ROp::End => {
                let e = !self.looked && self.rd.at_end();
                self.looked |= !e && self.rd.rest_bits() == 0;
                Out::End(e)
            }
            ROp::Seek(s) => self.seek(s)?,
            ROp::Position => self.seek(SeekFrom::Current(0))?,
        })
    }
    fn seek(&mut self, s: SeekFrom) -> Result<Out, ME> {
        let env = Env { fields: vec![], ctx: &[], bit_off: 0, elem: None };
        self.rd.seek(&spec(s), &env)?;
        self.looked = false;
        Ok(Out::At(self.rd.bytes_touched() as u64))
    }
}

fn constant<const N: usize, R: Read + Seek>(r: &mut Reader<R>, o: Order, into: bool) -> Result<Out, DekuError> {
    let mut b = [0xA5; N];
    if into {
        r.read_bytes_const_into(&mut b, o)?;
    } else {
        let ReaderRet::Bytes = r.read_bytes_const(&mut b, o)? else { return Err(DekuError::IdVariantNotFound) };
    }
    Ok(Out::Bytes(b.to_vec()))
}

fn real<R: Read + Seek>(r: &mut Reader<R>, op: ROp) -> Result<Out, DekuError> {
    let constant = |r: &mut Reader<R>, n, o, into| match n {
        0 => constant::<0, R>(r, o, into),
        1 => constant::<1, R>(r, o, into),
        2 => constant::<2, R>(r, o, into),
        4 => constant::<4, R>(r, o, into),
        8 => constant::<8, R>(r, o, into),
        _ => constant::<16, R>(r, o, into),
    };
    Ok(match op {
        ROp::Bits(n, o) => Out::Bits(r.read_bits(n, ord(o))?.map_or_else(Vec::new, |b| b.iter().by_vals().collect())),
        ROp::BitsInto(n, o) => {
            let mut b: BitVec<u8, Msb0> = BitVec::repeat(true, n + 5);
            r.read_bits_into(&mut b[3..n + 3], ord(o))?;
            if !b[..3].all() || !b[n + 3..].all() {
                return Err(DekuError::IdVariantNotFound);
            }
            Out::Bits(b[3..n + 3].iter().by_vals().collect())
        }
        ROp::Bytes(n, o) => {
            let mut b = vec![0xA5; n + 2];
            let ReaderRet::Bytes = r.read_bytes(n, &mut b, ord(o))? else { return Err(DekuError::IdVariantNotFound) };
            if b[n..] != [0xA5; 2] {
                return Err(DekuError::IdVariantNotFound);
            }
            b.truncate(n);
            Out::Bytes(b)
        }
        ROp::Const(n, o) => constant(r, n, ord(o), false)?,
        ROp::ConstInto(n, o) => constant(r, n, ord(o), true)?,
        ROp::Skip(n, o) => {
            r.skip_bits(n, ord(o))?;
            Out::Done
        }
        ROp::End => Out::End(r.end()),
        ROp::Seek(s) => Out::At(r.seek(s)?),
        ROp::Position => Out::At(r.stream_position()?),
    })
}

fn reader_seq(rep: &mut Report, rng: &mut Rng) {
    let len = if rng.chance(1, 6) { rng.range(100, 700) } else { rng.below(40) };
    let data = rng.bytes(len);
    let mut mon = Mon::new(data.clone());
    match rng.below(4) {
        0 => mon = mon.hostile(Rng::new(rng.u64())),
        1 => mon = mon.chunked(rng.range(1, 3)),
        _ => {}
    }
    let mut m = Ref { rd: Rd::new(&data), data: &data, looked: false };
    let mut done = vec![];
    let steps = rng.range(1, 30);
    vcore::watch::on("Reader", &data);
    // the state after every operation, from the real code
    let mut r = Reader::new(&mut mon);
    for _ in 0..steps {
        let op = rop(rng, len);
        done.push(op);
        let want = m.apply(op);
        if let Err(ME::Undef(_)) = want {
            return;
        }
        let got = guard(|| Ok(real(&mut r, op)?));
        let name = format!("{op:?}");
        let name = name.split('(').next().unwrap_or("").to_string();
        rep.eval(&format!("Reader {name} {}", if want.is_ok() { "ok" } else { "refused" }));
        rep.distinct(&format!("r {op:?} {} {} {}", m.rd.rest_bits(), m.looked, want.is_ok()));
        let key = format!("Reader {name}");
        let here = || format!("{done:?} on {}", hex(&data));
        match (&want, &got) {
            (_, Err(x)) if fatal(x) => {
                rep.violation(key, format!("{}: {x:?}, expected {want:?}", here()));
                return;
            }
            (Ok(w), Ok(g)) => {
                let state = (r.bits_read, r.rest(), r.as_mut().pos);
                let expected = (m.rd.bits_read, m.rest(), m.at());
                let ok = w == g && state == expected;
                rep.check(ok, &key, || format!("{}: gave {g:?}, expected {w:?}; bits_read, rest and position are {state:?}, expected {expected:?}", here()));
                if !ok {
                    return;
                }
            }
            (Err(w), Err(g)) => {
                rep.check(class(w) == g.class(), &key, || format!("{}: {g:?}, expected {}", here(), class(w)));
                return;
            }
            _ => {
                rep.violation(key, format!("{}: {got:?}, expected {want:?}", here()));
                return;
            }
        }
    }
    let at = m.at();
    let inner = r.into_inner();
    rep.check(inner.pos == at, "Reader into_inner", || format!("{done:?} on {}: at {}, expected {at}", hex(&data), inner.pos));
}

#[derive(Clone, Debug)]
enum WOp {
    Bits(Vec<bool>, O),
    MsbBits(Vec<bool>),
    Bytes(Vec<u8>),
    Seek(SeekFrom),
    Finalize,
}

fn writer_seq(rep: &mut Report, rng: &mut Rng) {
    let mut mon = Mon::new(vec![]);
    match rng.below(4) {
        0 => mon = mon.hostile(Rng::new(rng.u64())),
        1 => mon = mon.chunked(rng.range(1, 3)),
        _ => {}
    }
    let mut m = Wr::default();
    let mut done = vec![];
    // the order in which the current byte was begun
    let mut begun = O::Msb;
    let mut at = 0u64;
    vcore::watch::on("Writer", &[]);
    let mut w = Writer::new(&mut mon);
    for _ in 0..rng.range(1, 24) {
        let o = if m.pending() == 0 { order(rng) } else { begun };
        let n = match rng.below(10) {
            0 => 0,
            1 => rng.range(30, 90),
            2 => 8 * rng.below(5),
            _ => rng.below(14),
        };
        let bits: Vec<bool> = (0..n).map(|_| rng.bool()).collect();
        let op = match rng.below(10) {
            0..=4 => WOp::Bits(bits, o),
            5 if o == O::Msb => WOp::MsbBits(bits),
            6 | 7 if o == O::Msb || m.pending() == 0 => WOp::Bytes(rng.bytes(n / 3)),
            8 if m.pending() == 0 => WOp::Seek(seek_from(rng, m.out.len())),
            9 => WOp::Finalize,
            _ => WOp::Bits(bits, o),
        };
        done.push(op.clone());
        let env = Env { fields: vec![], ctx: &[], bit_off: 0, elem: None };
        let want: Result<(), ME> = match &op {
            WOp::Bits(b, o) => {
                // as if each bit of a least significant first slice came from its end
                let mut s = b.clone();
                if *o == O::Lsb {
                    s.reverse();
                }
                m.push(&s, *o);
                begun = *o;
                Ok(())
            }
            WOp::MsbBits(b) => {
                m.push(b, O::Msb);
                begun = O::Msb;
                Ok(())
            }
            WOp::Bytes(b) => {
                for x in b {
                    let s: Vec<bool> = (0..8).map(|i| x >> (7 - i) & 1 == 1).collect();
                    m.push(&s, O::Msb);
                }
                if !b.is_empty() {
                    begun = O::Msb;
                }
                Ok(())
            }
            WOp::Seek(s) => m.seek(&spec(*s), &env),
            WOp::Finalize => {
                m.finalize();
                Ok(())
            }
        };
        if let Err(ME::Undef(_)) = want {
            return;
        }
        if m.mixed {
            rep.count("not judged: both bit orders in one byte");
            return;
        }
        let got = guard(|| {
            match &op {
                WOp::Bits(b, o) => {
                    let b: BitVec<u8, Msb0> = b.iter().copied().collect();
                    w.write_bits_order(&b, ord(*o))?;
                }
                WOp::MsbBits(b) => {
                    // from the middle of another slice
                    let mut x: BitVec<u8, Msb0> = BitVec::repeat(true, 3);
                    x.extend(b.iter().copied());
                    w.write_bits(&x[3..])?;
                }
                WOp::Bytes(b) => w.write_bytes(b)?,
                WOp::Seek(s) => at = w.seek(*s).map_err(DekuError::from)?,
                WOp::Finalize => w.finalize()?,
            }
            Ok(())
        });
        let name = format!("{op:?}");
        let name = name.split('(').next().unwrap_or("").to_string();
        rep.eval(&format!("Writer {name} {}", if want.is_ok() { "ok" } else { "refused" }));
        rep.distinct(&format!("w {name} {n} {:?} {} {}", mord(ord(begun)), m.pending(), want.is_ok()));
        let key = format!("Writer {name}");
        match (&want, &got) {
            (Ok(()), Ok(())) => {
                let state = (w.bits_written, w.rest());
                let expected = (m.bits_written, m.pending_bits());
                let ok = state == expected;
                rep.check(ok, &key, || format!("{done:?}: bits_written and rest are {state:?}, expected {expected:?}"));
                if !ok {
                    return;
                }
            }
            (Err(a), Err(b)) if class(a) == b.class() => return,
            _ => {
                rep.violation(key, format!("{done:?}: {got:?}, expected {want:?}"));
                return;
            }
        }
    }
    let _ = at;
    let r = guard(|| Ok(w.finalize()?));
    m.finalize();
    let bits = w.bits_written;
    rep.eval("Writer finished");
    rep.check(r.is_ok() && mon.data == m.out && bits == m.bits_written, "Writer bytes", || {
        format!("{done:?}: {r:?}, {bits} bits, {}, expected {} bits, {}", hex(&mon.data), m.bits_written, hex(&m.out))
    });
}

pub fn sequences(rep: &mut Report) -> Meta {
    let n = rep.scale(1200, 24000);
    let items: Vec<usize> = (0..64).collect();
    par(rep, &items, |i| i.to_string(), |rep, _, rng| {
        for _ in 0..n {
            reader_seq(rep, rng);
            writer_seq(rep, rng);
        }
    });
    Meta {
        level: "exploration",
        rule: "distinct (operation with its arguments, bits left over before it, outcome) in random sequences of operations, state compared after every one",
        assumptions: &["bits of both orders in one byte are not judged when writing", "nothing is judged after an error", "a seek with bits which are not written yet is not judged"],
    }
}

/// NoSeek by itself
/// Was this written there, and nothing else?
fn written(data: &mut Vec<u8>, at: usize, b: &[u8], now: &[u8]) -> bool {
    if data.len() < at + b.len() {
        data.resize(at + b.len(), 0);
    }
    data[at..at + b.len()].copy_from_slice(b);
    now == &data[..]
}

pub fn noseek_seq(rep: &mut Report, n: usize) {
    let items: Vec<usize> = (0..32).collect();
    par(rep, &items, |i| format!("noseek {i}"), |rep, _, rng| {
        for _ in 0..n {
            let len = rng.below(60);
            let mut data = rng.bytes(len);
            if rng.chance(1, 3) {
                data.iter_mut().for_each(|b| *b &= 0x7f);
            }
            let mut mon = Mon::new(data.clone()).hostile(Rng::new(rng.u64()));
            mon.seekable = false;
            vcore::watch::on("NoSeek", &data);
            let mut s = deku::noseek::NoSeek::new(mon);
            let mut pos = 0u64;
            let mut done = vec![];
            for _ in 0..rng.range(1, 20) {
                let k = rng.below(12);
                done.push(k);
                let here = format!("{done:?} on {}", hex(&data));
                let ok: Result<bool, Er> = guard(|| {
                    Ok(match k {
                        0 => {
                            let mut b = vec![0; rng.below(9)];
                            let r = s.read(&mut b);
                            match r {
                                Ok(n) => {
                                    let at = pos as usize;
                                    pos += n as u64;
                                    n <= b.len() && data.get(at..at + n) == Some(&b[..n])
                                }
                                Err(e) => e.kind() == std::io::ErrorKind::Interrupted,
                            }
                        }
                        1 => {
                            let mut b = vec![0; rng.below(5)];
                            if pos as usize + b.len() > data.len() {
                                true
                            } else {
                                let at = pos as usize;
                                pos += b.len() as u64;
                                s.read_exact(&mut b).is_ok() && b == data[at..at + b.len()]
                            }
                        }
                        2 => {
                            let n = if rng.chance(1, 2) { pos } else { rng.below(20) as u64 };
                            let r = s.seek(SeekFrom::Start(n));
                            if n == pos {
                                matches!(r, Ok(x) if x == pos)
                            } else {
                                r.is_err()
                            }
                        }
                        3 => {
                            let n = if rng.chance(1, 2) { 0 } else { rng.below(9) as i64 - 4 };
                            let r = s.seek(SeekFrom::Current(n));
                            if n == 0 {
                                matches!(r, Ok(x) if x == pos)
                            } else {
                                r.is_err()
                            }
                        }
                        4 => s.seek(SeekFrom::End(rng.below(9) as i64 - 4)).is_err(),
                        5 => matches!(s.stream_position(), Ok(x) if x == pos),
                        6 => s.get_ref().pos == pos && s.get_mut().pos == pos,
                        7 => {
                            // several buffers at once, of which some bytes come
                            let mut x = vec![0; rng.below(4)];
                            let mut y = vec![0; rng.below(6)];
                            let r = {
                                let mut io = [std::io::IoSliceMut::new(&mut x), std::io::IoSliceMut::new(&mut y)];
                                s.read_vectored(&mut io)
                            };
                            match r {
                                Ok(n) => {
                                    let at = pos as usize;
                                    pos += n as u64;
                                    x.extend(y);
                                    n <= x.len() && data.get(at..at + n) == Some(&x[..n])
                                }
                                Err(e) => e.kind() == std::io::ErrorKind::Interrupted,
                            }
                        }
                        8 => {
                            let mut x = rng.bytes(2);
                            let had = x.len();
                            let at = pos as usize;
                            let all = match rng.below(8) {
                                0 => s.read_to_end(&mut x).map(|n| (n, true)),
                                // (how far it gets in what is no text is up to the stream)
                                1 if data.get(at..).is_some_and(|d| std::str::from_utf8(d).is_ok()) => {
                                    let mut t = String::from("a");
                                    let r = s.read_to_string(&mut t).map(|n| (n, true));
                                    x.extend(t[1..].as_bytes());
                                    r
                                }
                                _ => Ok((0, false)),
                            };
                            match all {
                                Ok((_, false)) => true,
                                Ok((n, _)) => {
                                    pos += n as u64;
                                    data.get(at..) == Some(&x[had..]) && n == x.len() - had
                                }
                                Err(_) => false,
                            }
                        }
                        9 => {
                            let b = rng.bytes(3);
                            let at = pos as usize;
                            let r = s.write(&b);
                            match r {
                                Ok(n) => {
                                    pos += n as u64;
                                    written(&mut data, at, &b[..n], &s.get_ref().data)
                                }
                                Err(e) => e.kind() == std::io::ErrorKind::Interrupted,
                            }
                        }
                        10 => {
                            let (x, y) = (rng.below(4), rng.below(6));
                            let (x, y) = (rng.bytes(x), rng.bytes(y));
                            let at = pos as usize;
                            let r = s.write_vectored(&[std::io::IoSlice::new(&x), std::io::IoSlice::new(&y)]);
                            match r {
                                Ok(n) => {
                                    pos += n as u64;
                                    let b = [x, y].concat();
                                    n <= b.len() && written(&mut data, at, &b[..n], &s.get_ref().data)
                                }
                                Err(e) => e.kind() == std::io::ErrorKind::Interrupted,
                            }
                        }
                        _ => {
                            let n = rng.below(4);
                            let b = rng.bytes(n);
                            let at = pos as usize;
                            pos += n as u64;
                            s.write_all(&b).is_ok() && s.flush().is_ok() && written(&mut data, at, &b, &s.get_ref().data)
                        }
                    })
                });
                rep.eval("NoSeek operation");
                rep.distinct(&format!("noseek {k} {}", pos.min(9)));
                let good = matches!(ok, Ok(true)) && s.get_ref().pos == pos && s.get_ref().seeks == 0;
                rep.check(good, "NoSeek operation", || format!("{here}: {ok:?}, at {}, expected {pos}, {} seeks", s.get_ref().pos, s.get_ref().seeks));
                if !good {
                    break;
                }
            }
        }
    });
}
