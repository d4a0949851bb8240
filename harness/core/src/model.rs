//! The reference model: an independent, bit-by-bit interpreter of deku's documented format, over
//! descriptions ("schemas") of the types under test.
//!
//! A byte is a window of unread (unwritten) bits. Most significant first order takes bits from the
//! top of the window, least significant first from the bottom.
use crate::rng::Rng;
use crate::val::Val;
use std::collections::VecDeque;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E {
    Le,
    Be,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum O {
    Msb,
    Lsb,
}
pub const NATIVE: E = if cfg!(target_endian = "big") { E::Be } else { E::Le };

/// Why the model rejects
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ME {
    Incomplete,
    Parse,
    Assertion,
    InvalidParam,
    Id,
    Io,
    /// outside of what the model judges
    Undef(&'static str),
}
pub type R<T> = Result<T, ME>;

#[derive(Clone, Debug)]
pub enum Ty {
    Int { w: usize, s: bool },
    NonZero { w: usize, s: bool },
    Float { w: usize },
    Bool,
    Unit,
    CStr,
    Arr(Box<Ty>, usize),
    /// Vec<T>, Box<[T]>, Arc<[T]>
    Vec(Box<Ty>),
    Set(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Opt(Box<Ty>),
    Tup(Vec<Ty>),
    Named(fn() -> &'static Decl),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    And,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    LAnd,
    LOr,
}

#[derive(Clone, Debug)]
pub enum Expr {
    L(i128),
    /// field by declared index
    F(usize),
    /// context parameter
    C(usize),
    Len(usize),
    BitOff,
    ByteOff,
    /// the element given to `until`
    Elem,
    /// the n-th member of the element
    ElemAt(usize),
    IsSome(usize),
    B(Bop, Box<Expr>, Box<Expr>),
}

#[derive(Clone, Debug)]
pub enum EndianSpec {
    Lit(E),
    Ctx(usize),
}
#[derive(Clone, Debug)]
pub enum OrderSpec {
    Lit(O),
    Ctx(usize),
}

#[derive(Clone, Debug, Default)]
pub enum Lim {
    #[default]
    None,
    Count(Expr),
    Bits(Expr),
    Bytes(Expr),
    Until(Expr),
    All,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub enum Skip {
    #[default]
    No,
    All,
    Read,
    Write,
}

#[derive(Clone, Debug)]
pub enum SeekSpec {
    Rewind,
    Start(Expr),
    Current(Expr),
    End(Expr),
}

#[derive(Clone, Debug)]
pub enum Default_ {
    Zero,
    Int(Expr),
    Some(Expr),
}

/// hints for the generator of valid values
#[derive(Clone, Debug, Default)]
pub enum Hint {
    #[default]
    None,
    Range(i128, i128),
    OneOf(Vec<i128>),
}

#[derive(Clone, Debug)]
pub struct FieldD {
    pub name: &'static str,
    pub ty: Ty,
    pub endian: Option<EndianSpec>,
    pub order: Option<OrderSpec>,
    pub bits: Option<Expr>,
    pub bytes: Option<Expr>,
    pub ctx: Vec<Expr>,
    pub lim: Lim,
    pub cond: Option<Expr>,
    pub skip: Skip,
    pub default: Option<Default_>,
    pub temp: bool,
    pub temp_value: Option<Expr>,
    pub magic: Option<&'static [u8]>,
    pub pad_bits_before: Option<Expr>,
    pub pad_bytes_before: Option<Expr>,
    pub pad_bits_after: Option<Expr>,
    pub pad_bytes_after: Option<Expr>,
    pub assert: Option<Expr>,
    pub assert_eq: Option<Expr>,
    pub update: Option<Expr>,
    pub seek: Option<SeekSpec>,
    pub hint: Hint,
    /// `map`: the type which is read, and the function
    pub map: Option<(Ty, fn(&Val) -> R<Val>)>,
    /// `reader` / `writer`: what the custom functions do
    pub reader: Option<fn(&mut Rd, &Env) -> R<Val>>,
    pub writer: Option<fn(&Val, &mut Wr, &Env) -> R<()>>,
}

impl FieldD {
    pub fn new(name: &'static str, ty: Ty) -> Self {
        FieldD {
            name,
            ty,
            endian: None,
            order: None,
            bits: None,
            bytes: None,
            ctx: vec![],
            lim: Lim::None,
            cond: None,
            skip: Skip::No,
            default: None,
            temp: false,
            temp_value: None,
            magic: None,
            pad_bits_before: None,
            pad_bytes_before: None,
            pad_bits_after: None,
            pad_bytes_after: None,
            assert: None,
            assert_eq: None,
            update: None,
            seek: None,
            hint: Hint::None,
            map: None,
            reader: None,
            writer: None,
        }
    }
}

#[derive(Clone, Debug)]
pub struct VariantD {
    pub name: &'static str,
    pub id: Option<Val>,
    /// `id` was given (and not just a discriminant)
    pub explicit_id: bool,
    /// ranges of an `id_pat`
    pub pat: Option<Vec<(i128, i128)>>,
    pub default: bool,
    pub fields: Vec<FieldD>,
}

#[derive(Clone, Debug)]
pub enum IdSrc {
    Ctx(Expr),
    CtxTup(Vec<Expr>),
    Read { ty: Ty, endian: Option<EndianSpec>, order: Option<OrderSpec>, bits: Option<usize>, bytes: Option<usize> },
}

#[derive(Clone, Debug)]
pub enum Kind {
    Struct { fields: Vec<FieldD>, seek: Option<SeekSpec> },
    Enum { id: IdSrc, variants: Vec<VariantD> },
}

#[derive(Clone, Debug)]
pub struct Decl {
    pub name: &'static str,
    pub kind: Kind,
    pub endian: Option<EndianSpec>,
    pub order: Option<OrderSpec>,
    pub magic: Option<&'static [u8]>,
    pub ctx_default: Option<Vec<i128>>,
}

// ---------------------------------------------------------------- expressions

pub struct Env<'a> {
    pub fields: Vec<Val>,
    pub ctx: &'a [i128],
    pub bit_off: usize,
    pub elem: Option<&'a Val>,
}

impl Expr {
    pub fn eval(&self, env: &Env) -> i128 {
        match self {
            Expr::L(n) => *n,
            Expr::F(i) => env.fields[*i].n(),
            Expr::C(i) => env.ctx[*i],
            Expr::Len(i) => env.fields[*i].len() as i128,
            Expr::IsSome(i) => i128::from(matches!(&env.fields[*i], Val::Opt(Some(_)))),
            Expr::BitOff => env.bit_off as i128,
            Expr::ByteOff => (env.bit_off / 8) as i128,
            Expr::Elem => env.elem.map_or(0, Val::n),
            Expr::ElemAt(i) => env.elem.map_or(0, |e| e.items()[*i].n()),
            Expr::B(op, a, b) => {
                let (a, b) = (a.eval(env), b.eval(env));
                match op {
                    Bop::Add => a.wrapping_add(b),
                    Bop::Sub => a.wrapping_sub(b),
                    Bop::Mul => a.wrapping_mul(b),
                    Bop::Div => a.checked_div(b).unwrap_or(0),
                    Bop::Rem => a.checked_rem(b).unwrap_or(0),
                    Bop::And => a & b,
                    Bop::Eq => i128::from(a == b),
                    Bop::Ne => i128::from(a != b),
                    Bop::Lt => i128::from(a < b),
                    Bop::Le => i128::from(a <= b),
                    Bop::Gt => i128::from(a > b),
                    Bop::Ge => i128::from(a >= b),
                    Bop::LAnd => i128::from(a != 0 && b != 0),
                    Bop::LOr => i128::from(a != 0 || b != 0),
                }
            }
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Args {
    pub e: Option<E>,
    pub bits: Option<usize>,
    pub bytes: Option<usize>,
    pub o: Option<O>,
    pub extra: Vec<i128>,
}

impl Args {
    fn flat(&self) -> Vec<i128> {
        let mut v = vec![];
        if let Some(e) = self.e {
            v.push(i128::from(e == E::Be));
        }
        if let Some(n) = self.bits {
            v.push(n as i128);
        }
        if let Some(n) = self.bytes {
            v.push(n as i128);
        }
        if let Some(o) = self.o {
            v.push(i128::from(o == O::Lsb));
        }
        v.extend(&self.extra);
        v
    }
}

fn endian(s: &Option<EndianSpec>, ctx: &[i128]) -> Option<E> {
    s.as_ref().map(|s| match s {
        EndianSpec::Lit(e) => *e,
        EndianSpec::Ctx(i) => {
            if ctx[*i] != 0 {
                E::Be
            } else {
                E::Le
            }
        }
    })
}
fn order(s: &Option<OrderSpec>, ctx: &[i128]) -> Option<O> {
    s.as_ref().map(|s| match s {
        OrderSpec::Lit(o) => *o,
        OrderSpec::Ctx(i) => {
            if ctx[*i] != 0 {
                O::Lsb
            } else {
                O::Msb
            }
        }
    })
}

// ---------------------------------------------------------------- bits

pub enum Src<'a> {
    Data(&'a [u8]),
    Gen { rng: &'a mut Rng, forced: VecDeque<bool>, budget: usize, ending: usize },
}

/// Reading side of the model
pub struct Rd<'a> {
    pub src: Src<'a>,
    pos: usize,
    cur: u8,
    lo: u32,
    hi: u32,
    pub bits_read: usize,
    /// coverage: (what) events seen while interpreting
    pub depth: usize,
}

impl<'a> Rd<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Rd { src: Src::Data(data), pos: 0, cur: 0, lo: 0, hi: 0, bits_read: 0, depth: 0 }
    }
    pub fn gen(rng: &'a mut Rng) -> Self {
        Rd {
            src: Src::Gen { rng, forced: VecDeque::new(), budget: 60_000, ending: 0 },
            pos: 0,
            cur: 0,
            lo: 0,
            hi: 0,
            bits_read: 0,
            depth: 0,
        }
    }
    fn generating(&self) -> bool {
        matches!(self.src, Src::Gen { .. })
    }
    pub fn is_gen(&self) -> bool {
        self.generating()
    }
    /// when generating: a number below n
    pub fn choose(&mut self, n: usize) -> usize {
        match &mut self.src {
            Src::Gen { rng, .. } => rng.below(n),
            Src::Data(_) => 0,
        }
    }
    /// the next bits will be these
    fn force(&mut self, seq: &[bool]) {
        if let Src::Gen { forced, .. } = &mut self.src {
            forced.extend(seq);
        }
    }
    /// n bits in the order they are consumed
    pub fn take(&mut self, n: usize, o: O) -> R<Vec<bool>> {
        let mut out = Vec::with_capacity(n.min(4096));
        match &mut self.src {
            Src::Gen { rng, forced, budget, .. } => {
                if *budget < n {
                    return Err(ME::Undef("generator budget"));
                }
                *budget -= n;
                if forced.is_empty() {
                    let mode = rng.below(6);
                    let hot = rng.below(n.max(1));
                    for i in 0..n {
                        out.push(match mode {
                            0 => false,
                            1 => rng.chance(7, 8),
                            2 => i == hot,
                            _ => rng.bool(),
                        });
                    }
                } else {
                    for _ in 0..n {
                        out.push(forced.pop_front().unwrap_or(false));
                    }
                }
            }
            Src::Data(data) => {
                // not enough: do not bother reading
                let avail = (self.hi - self.lo) as usize + 8 * data.len().saturating_sub(self.pos);
                if avail < n {
                    return Err(ME::Incomplete);
                }
                for _ in 0..n {
                    if self.lo == self.hi {
                        self.cur = data[self.pos];
                        self.pos += 1;
                        self.lo = 0;
                        self.hi = 8;
                    }
                    out.push(match o {
                        O::Msb => {
                            self.hi -= 1;
                            self.cur >> self.hi & 1 == 1
                        }
                        O::Lsb => {
                            self.lo += 1;
                            self.cur >> (self.lo - 1) & 1 == 1
                        }
                    });
                }
            }
        }
        self.bits_read += n;
        Ok(out)
    }
    pub fn at_end(&mut self) -> bool {
        match &mut self.src {
            Src::Data(d) => self.lo == self.hi && self.pos >= d.len(),
            Src::Gen { rng, ending, .. } => {
                *ending += 1;
                rng.chance(1, 4) || *ending > 12
            }
        }
    }
    /// the unread bits of the current byte
    pub fn rest_bits(&self) -> usize {
        (self.hi - self.lo) as usize
    }
    /// the unread bits of the current byte, most significant first
    pub fn rest_window(&self) -> Vec<bool> {
        (self.lo..self.hi).rev().map(|i| self.cur >> i & 1 == 1).collect()
    }
    /// bytes of the stream which were needed
    pub fn bytes_touched(&self) -> usize {
        self.pos
    }
    pub fn seek(&mut self, to: &SeekSpec, env: &Env) -> R<()> {
        let len = match &self.src {
            Src::Data(d) => d.len(),
            Src::Gen { .. } => return Ok(()),
        };
        let (base, off) = match to {
            SeekSpec::Rewind => (0, 0),
            SeekSpec::Start(e) => {
                let n = e.eval(env);
                if n < 0 || n > i128::from(u64::MAX) {
                    return Err(ME::InvalidParam);
                }
                (0, n)
            }
            SeekSpec::Current(e) | SeekSpec::End(e) => {
                let n = e.eval(env);
                if i64::try_from(n).is_err() {
                    return Err(ME::InvalidParam);
                }
                (if matches!(to, SeekSpec::End(_)) { len } else { self.pos } as i128, n)
            }
        };
        let to = base + off;
        if to < 0 || to > i128::from(u64::MAX) {
            return Err(ME::Io);
        }
        if to > 1 << 40 {
            return Err(ME::Undef("seek far away"));
        }
        self.lo = 0;
        self.hi = 0;
        self.pos = to as usize;
        self.bits_read = self.pos * 8;
        Ok(())
    }
}

/// Writing side of the model
#[derive(Clone, Debug, Default)]
pub struct Wr {
    pub out: Vec<u8>,
    pos: usize,
    cur: u8,
    top: u32,
    bottom: u32,
    /// a byte was filled from both ends, or bits were dropped by a seek: not judged
    pub mixed: bool,
    pub seeked: bool,
    pub bits_written: usize,
}

impl Wr {
    pub fn push(&mut self, seq: &[bool], o: O) {
        for b in seq {
            match o {
                O::Msb => {
                    if self.bottom != 0 {
                        self.mixed = true;
                    }
                    self.cur |= u8::from(*b) << (7 - self.top);
                    self.top += 1;
                }
                O::Lsb => {
                    if self.top != 0 {
                        self.mixed = true;
                    }
                    self.cur |= u8::from(*b) << self.bottom;
                    self.bottom += 1;
                }
            }
            if self.top + self.bottom == 8 {
                self.flush();
            }
        }
    }
    fn flush(&mut self) {
        if self.out.len() <= self.pos {
            self.out.resize(self.pos + 1, 0);
        }
        self.out[self.pos] = self.cur;
        self.pos += 1;
        self.bits_written += 8;
        self.cur = 0;
        self.top = 0;
        self.bottom = 0;
    }
    /// where the next bit goes: after a seek, counted from the start of the sink
    pub fn bit_offset(&self) -> usize {
        self.pending() + if self.seeked { self.pos * 8 } else { self.bits_written }
    }
    pub fn pending(&self) -> usize {
        (self.top + self.bottom) as usize
    }
    /// the pending bits, as the most significant first bit sequence which `to_bits` shows
    pub fn pending_bits(&self) -> Vec<bool> {
        if self.bottom == 0 {
            (0..self.top).map(|i| self.cur >> (7 - i) & 1 == 1).collect()
        } else {
            (0..self.bottom).rev().map(|i| self.cur >> i & 1 == 1).collect()
        }
    }
    pub fn finalize(&mut self) {
        if self.pending() != 0 {
            self.flush();
        }
    }
    pub fn seek(&mut self, to: &SeekSpec, env: &Env) -> R<()> {
        self.seeked = true;
        if self.pending() != 0 {
            self.mixed = true;
        }
        let (base, off) = match to {
            SeekSpec::Rewind => (0, 0),
            SeekSpec::Start(e) => {
                let n = e.eval(env);
                if n < 0 || n > i128::from(u64::MAX) {
                    return Err(ME::InvalidParam);
                }
                (0, n)
            }
            SeekSpec::Current(e) | SeekSpec::End(e) => {
                let n = e.eval(env);
                if i64::try_from(n).is_err() {
                    return Err(ME::InvalidParam);
                }
                if self.mixed {
                    return Err(ME::Undef("where a write with both bit orders is"));
                }
                (if matches!(to, SeekSpec::End(_)) { self.out.len() } else { self.pos } as i128, n)
            }
        };
        let to = base + off;
        if to < 0 || to > i128::from(u64::MAX) {
            return Err(ME::Io);
        }
        if to > 1 << 20 {
            return Err(ME::Undef("seek far away"));
        }
        self.pos = to as usize;
        Ok(())
    }
}

// ---------------------------------------------------------------- integers

fn num_msb(bits: &[bool]) -> u128 {
    bits.iter().fold(0, |a, b| a << 1 | u128::from(*b))
}
fn num_lsb(bits: &[bool]) -> u128 {
    bits.iter().rev().fold(0, |a, b| a << 1 | u128::from(*b))
}

/// The value of a sequence of bits, in the order they were consumed
pub fn seq_to_int(seq: &[bool], e: E, o: O) -> u128 {
    match (o, e) {
        (O::Msb, E::Be) => num_msb(seq),
        (O::Msb, E::Le) => seq.chunks(8).enumerate().fold(0, |a, (i, c)| a | num_msb(c) << (8 * i)),
        (O::Lsb, E::Le) => num_lsb(seq),
        (O::Lsb, E::Be) => {
            let k = seq.len().div_ceil(8);
            seq.chunks(8).enumerate().fold(0, |a, (i, c)| a | num_lsb(c) << (8 * (k - 1 - i)))
        }
    }
}

/// The inverse; None if the value cannot be represented in n bits
pub fn int_to_seq(v: u128, n: usize, e: E, o: O) -> Option<Vec<bool>> {
    let msb = |v: u128, n: usize| (0..n).rev().map(move |i| v >> i & 1 == 1);
    let lsb = |v: u128, n: usize| (0..n).map(move |i| v >> i & 1 == 1);
    let mut out = Vec::with_capacity(n);
    let k = n.div_ceil(8);
    match (o, e) {
        (O::Msb, E::Be) => out.extend(msb(v, n)),
        (O::Lsb, E::Le) => out.extend(lsb(v, n)),
        (O::Msb, E::Le) => {
            for i in 0..k {
                let len = (n - 8 * i).min(8);
                out.extend(msb(v >> (8 * i), len));
            }
        }
        (O::Lsb, E::Be) => {
            for i in 0..k {
                let len = (n - 8 * i).min(8);
                out.extend(lsb(v >> (8 * (k - 1 - i)), len));
            }
        }
    }
    if seq_to_int(&out, e, o) == v {
        Some(out)
    } else {
        None
    }
}

fn mask(n: usize) -> u128 {
    if n >= 128 {
        u128::MAX
    } else {
        (1 << n) - 1
    }
}

pub fn sign_extend(v: u128, n: usize) -> i128 {
    if n == 0 {
        return 0;
    }
    let sh = 128 - n as u32;
    ((v << sh) as i128) >> sh
}

/// Is the layout one which cannot hold all values of its width (a partial byte which is the least
/// significant one)?
pub fn odd_layout(n: usize, e: E, o: O) -> bool {
    o == O::Lsb && e == E::Be && n > 8 && n % 8 != 0
}

fn width(w: usize, a: &Args, _write: bool) -> R<usize> {
    match (a.bits, a.bytes) {
        (Some(b), _) => Ok(b),
        (None, Some(b)) => {
            if w == 8 && b != 1 {
                return Err(ME::Undef("size in bytes of a one byte type"));
            }
            Ok(b.saturating_mul(8))
        }
        _ => Ok(w),
    }
}

fn dec_int(w: usize, s: bool, a: &Args, rd: &mut Rd, want: &Want) -> R<i128> {
    let n = width(w, a, false)?;
    if n > w {
        return Err(ME::Parse);
    }
    let (e, o) = (a.e.unwrap_or(NATIVE), a.o.unwrap_or(O::Msb));
    if s && odd_layout(n, e, o) {
        return Err(ME::Undef("signed odd layout"));
    }
    if rd.generating() {
        if let Some(v) = want.pick(rd) {
            let m = (v as u128) & mask(n);
            match int_to_seq(m, n, e, o) {
                Some(seq) => rd.force(&seq),
                None => return Err(ME::Undef("hint does not fit")),
            }
        }
    }
    let seq = rd.take(n, o)?;
    let v = seq_to_int(&seq, e, o);
    Ok(if s { sign_extend(v, n) } else { v as i128 })
}

fn enc_int(v: i128, w: usize, s: bool, a: &Args, wr: &mut Wr) -> R<()> {
    let n = width(w, a, true)?;
    if n > w {
        return Err(ME::InvalidParam);
    }
    let (e, o) = (a.e.unwrap_or(NATIVE), a.o.unwrap_or(O::Msb));
    let u = (v as u128) & mask(w);
    let u = if a.bits.is_some() {
        // must fit
        if s {
            if odd_layout(n, e, o) {
                return Err(ME::Undef("signed odd layout"));
            }
            if sign_extend(u, n) != sign_extend(u, w) {
                return Err(ME::InvalidParam);
            }
            u & mask(n)
        } else {
            u
        }
    } else {
        // keeps the low bytes
        u & mask(n)
    };
    match int_to_seq(u, n, e, o) {
        Some(seq) => wr.push(&seq, o),
        None => return Err(ME::InvalidParam),
    }
    Ok(())
}

// ---------------------------------------------------------------- decode

/// What a generator would like to see next
#[derive(Clone, Debug)]
enum Want {
    Any,
    Hint(Hint),
    NonZero,
    Bit,
    Exactly(i128),
}
impl Want {
    fn pick(&self, rd: &mut Rd) -> Option<i128> {
        let Src::Gen { rng, .. } = &mut rd.src else { return None };
        match self {
            Want::Any | Want::Hint(Hint::None) => None,
            Want::Hint(Hint::Range(lo, hi)) => Some(lo + (rng.u64() as i128).rem_euclid(hi - lo + 1)),
            Want::Hint(Hint::OneOf(v)) => Some(*rng.pick(v)),
            Want::NonZero => {
                let n = rng.below(4);
                Some(if n == 0 { 1 } else { 1 + (rng.u64() % 100) as i128 })
            }
            Want::Bit => Some(i128::from(rng.bool())),
            Want::Exactly(n) => Some(*n),
        }
    }
}

/// A limit with its value
pub enum LimV<'a> {
    Count(usize),
    Bits(usize),
    Until(&'a Expr),
    All,
}

const MAX_ELEMS: usize = 1 << 21;

fn is_zst(ty: &Ty) -> bool {
    match ty {
        Ty::Unit => true,
        Ty::Arr(t, n) => *n == 0 || is_zst(t),
        Ty::Tup(t) => t.iter().all(is_zst),
        _ => false,
    }
}

fn dec_list(
    elem: &mut dyn FnMut(&mut Rd) -> R<Val>,
    lim: &LimV,
    rd: &mut Rd,
    env: &Env,
) -> R<Vec<Val>> {
    let mut out = vec![];
    match lim {
        LimV::Count(0) | LimV::Bits(0) => return Ok(out),
        LimV::Count(n) => {
            for _ in 0..*n {
                if out.len() > MAX_ELEMS {
                    return Err(ME::Undef("too many elements"));
                }
                let before = rd.bits_read;
                out.push(elem(rd)?);
                if rd.bits_read == before && *n > 1 << 16 {
                    return Err(ME::Undef("endless elements"));
                }
            }
        }
        LimV::All => {
            if let Src::Gen { ending, .. } = &mut rd.src {
                *ending = 0;
            }
            while !rd.at_end() {
                let before = rd.bits_read;
                out.push(elem(rd)?);
                if rd.bits_read == before {
                    return Err(ME::Undef("endless elements"));
                }
            }
        }
        LimV::Bits(n) => {
            let start = rd.bits_read;
            loop {
                let before = rd.bits_read;
                out.push(elem(rd)?);
                if rd.bits_read == before {
                    return Err(ME::Undef("endless elements"));
                }
                let got = rd.bits_read.wrapping_sub(start);
                if got == *n {
                    break;
                }
                if rd.generating() && got > *n {
                    return Err(ME::Undef("does not fit the limit"));
                }
            }
        }
        LimV::Until(p) => loop {
            let before = rd.bits_read;
            let v = elem(rd)?;
            let done = p.eval(&Env { fields: env.fields.clone(), ctx: env.ctx, bit_off: env.bit_off, elem: Some(&v) });
            out.push(v);
            if done != 0 {
                break;
            }
            if rd.bits_read == before {
                return Err(ME::Undef("endless elements"));
            }
            if rd.generating() && out.len() > 40 {
                return Err(ME::Undef("until not reached"));
            }
        },
    }
    Ok(out)
}

fn dec_ty(ty: &Ty, a: &Args, lim: Option<&LimV>, rd: &mut Rd, env: &Env, want: &Want) -> R<Val> {
    match ty {
        Ty::Int { w, s } => Ok(Val::N(dec_int(*w, *s, a, rd, want)?)),
        Ty::Float { w } => Ok(Val::N(dec_int(*w, false, a, rd, want)?)),
        Ty::NonZero { w, s } => {
            let want = match want {
                Want::Any => {
                    if let Src::Gen { rng, .. } = &mut rd.src {
                        // mostly let the bits decide
                        if rng.chance(2, 3) {
                            Want::Any
                        } else {
                            Want::NonZero
                        }
                    } else {
                        Want::Any
                    }
                }
                w => w.clone(),
            };
            match dec_int(*w, *s, a, rd, &want)? {
                0 => Err(ME::Parse),
                n => Ok(Val::N(n)),
            }
        }
        Ty::Bool => {
            let want = if matches!(want, Want::Any) { Want::Bit } else { want.clone() };
            match dec_int(8, false, a, rd, &want)? {
                n @ (0 | 1) => Ok(Val::N(n)),
                _ => Err(ME::Parse),
            }
        }
        Ty::Unit => Ok(Val::Unit),
        Ty::CStr => {
            let mut s = vec![];
            match a.bytes {
                None => loop {
                    let want = if let Src::Gen { rng, .. } = &mut rd.src {
                        if rng.chance(1, 5) {
                            Want::Exactly(0)
                        } else {
                            Want::NonZero
                        }
                    } else {
                        Want::Any
                    };
                    let b = dec_int(8, false, &Args::default(), rd, &want)?;
                    if b == 0 {
                        break;
                    }
                    s.push(b as u8);
                },
                Some(n) => {
                    for i in 0..n {
                        let want = if i + 1 == n { Want::Exactly(0) } else { Want::NonZero };
                        s.push(dec_int(8, false, &Args::default(), rd, &want)? as u8);
                    }
                    if s.pop() != Some(0) || s.contains(&0) {
                        return Err(ME::Parse);
                    }
                }
            }
            Ok(Val::Str(s))
        }
        Ty::Arr(t, n) => {
            let mut out = Vec::with_capacity(*n);
            for _ in 0..*n {
                out.push(dec_ty(t, a, lim, rd, env, want)?);
            }
            Ok(Val::List(out))
        }
        Ty::Tup(ts) => {
            let mut out = vec![];
            for t in ts {
                out.push(dec_ty(t, a, lim, rd, env, &Want::Any)?);
            }
            Ok(Val::Rec(out))
        }
        Ty::Opt(t) => Ok(Val::Opt(Some(Box::new(dec_ty(t, a, lim, rd, env, want)?)))),
        Ty::Vec(t) => {
            let lim = lim.ok_or(ME::Undef("no limit"))?;
            if is_zst(t) {
                return Ok(Val::List(vec![]));
            }
            let out = dec_list(&mut |rd| dec_ty(t, a, None, rd, env, want), lim, rd, env)?;
            Ok(Val::List(out))
        }
        Ty::Set(t) => {
            let lim = lim.ok_or(ME::Undef("no limit"))?;
            let n = |v: &Vec<Val>| v.len();
            let mut out = dec_list(&mut |rd| dec_ty(t, a, None, rd, env, want), lim, rd, env)?;
            let len = n(&out);
            out.sort();
            out.dedup();
            if rd.generating() && n(&out) != len {
                return Err(ME::Undef("duplicates"));
            }
            Ok(Val::Set(out))
        }
        Ty::Map(k, v) => {
            let lim = lim.ok_or(ME::Undef("no limit"))?;
            let t = Ty::Tup(vec![(**k).clone(), (**v).clone()]);
            let list = dec_list(&mut |rd| dec_ty(&t, a, None, rd, env, want), lim, rd, env)?;
            let len = list.len();
            let mut out: Vec<(Val, Val)> = vec![];
            for kv in list {
                let (k, v) = (kv.items()[0].clone(), kv.items()[1].clone());
                // the last one wins
                if let Some(e) = out.iter_mut().find(|e| e.0 == k) {
                    e.1 = v;
                } else {
                    out.push((k, v));
                }
            }
            if rd.generating() && out.len() != len {
                return Err(ME::Undef("duplicates"));
            }
            out.sort();
            Ok(Val::Map(out))
        }
        Ty::Named(d) => decode_decl(d(), &a.flat(), rd),
    }
}

pub fn default_val(ty: &Ty) -> Val {
    match ty {
        Ty::Int { .. } | Ty::Float { .. } | Ty::Bool | Ty::NonZero { .. } => Val::N(0),
        Ty::Unit => Val::Unit,
        Ty::CStr => Val::Str(vec![]),
        Ty::Arr(t, n) => Val::List(vec![default_val(t); *n]),
        Ty::Vec(_) => Val::List(vec![]),
        Ty::Set(_) => Val::Set(vec![]),
        Ty::Map(..) => Val::Map(vec![]),
        Ty::Opt(_) => Val::Opt(None),
        Ty::Tup(t) => Val::Rec(t.iter().map(default_val).collect()),
        Ty::Named(_) => Val::Unit,
    }
}

fn field_default(f: &FieldD, env: &Env) -> Val {
    match &f.default {
        None | Some(Default_::Zero) => default_val(&f.ty),
        Some(Default_::Int(e)) => Val::N(e.eval(env)),
        Some(Default_::Some(e)) => Val::Opt(Some(Box::new(Val::N(e.eval(env))))),
    }
}

fn field_args(f: &FieldD, d: &Decl, env: &Env) -> R<Args> {
    let size = |e: &Option<Expr>| -> R<Option<usize>> {
        match e {
            None => Ok(None),
            Some(e) => usize::try_from(e.eval(env)).map(Some).map_err(|_| ME::Undef("negative size")),
        }
    };
    Ok(Args {
        e: endian(&f.endian, env.ctx).or_else(|| endian(&d.endian, env.ctx)),
        bits: size(&f.bits)?,
        bytes: size(&f.bytes)?,
        o: order(&f.order, env.ctx).or_else(|| order(&d.order, env.ctx)),
        extra: f.ctx.iter().map(|e| e.eval(env)).collect(),
    })
}

fn pad_amount(bits: &Option<Expr>, bytes: &Option<Expr>, env: &Env) -> R<usize> {
    let mut n = 0usize;
    for (e, k) in [(bits, 1usize), (bytes, 8)] {
        if let Some(e) = e {
            let v = usize::try_from(e.eval(env)).map_err(|_| ME::InvalidParam)?;
            n = v.checked_mul(k).and_then(|v| n.checked_add(v)).ok_or(ME::InvalidParam)?;
        }
    }
    Ok(n)
}

/// Skipping: takes from the window, then whole bytes
pub fn skip(rd: &mut Rd, n: usize, o: O) -> R<()> {
    if rd.generating() {
        if n > 4096 {
            return Err(ME::Undef("long padding"));
        }
        rd.force(&vec![false; n]);
    }
    if n > 1 << 24 {
        // certainly more than there is
        return Err(ME::Incomplete);
    }
    rd.take(n, o)?;
    Ok(())
}

fn read_magic(m: &[u8], rd: &mut Rd) -> R<()> {
    for b in m {
        if rd.generating() {
            let seq = int_to_seq(u128::from(*b), 8, E::Be, O::Msb).unwrap();
            rd.force(&seq);
        }
        let v = num_msb(&rd.take(8, O::Msb)?);
        if v != u128::from(*b) {
            return Err(ME::Parse);
        }
    }
    Ok(())
}

fn decode_fields(fields: &[FieldD], d: &Decl, ctx: &[i128], rd: &mut Rd, first: Option<Val>) -> R<Vec<Val>> {
    let mut env = Env { fields: vec![], ctx, bit_off: 0, elem: None };
    let mut first = first;
    for f in fields {
        if let Some(v) = first.take() {
            env.fields.push(v);
            continue;
        }
        if let Some(s) = &f.seek {
            rd.seek(s, &env)?;
        }
        if let Some(m) = f.magic {
            read_magic(m, rd)?;
        }
        let o = order(&f.order, ctx).or_else(|| order(&d.order, ctx));
        if f.pad_bits_before.is_some() || f.pad_bytes_before.is_some() {
            let n = pad_amount(&f.pad_bits_before, &f.pad_bytes_before, &env)?;
            skip(rd, n, o.unwrap_or(O::Msb))?;
        }
        env.bit_off = rd.bits_read;
        let read = match (&f.skip, &f.cond) {
            (Skip::All | Skip::Read, Some(c)) => c.eval(&env) == 0,
            (Skip::All | Skip::Read, None) => false,
            (Skip::Write, _) => true,
            (Skip::No, Some(c)) => c.eval(&env) != 0,
            (Skip::No, None) => true,
        };
        let v = if !read {
            field_default(f, &env)
        } else if let Some(reader) = f.reader {
            let v = reader(rd, &env)?;
            match &f.map {
                Some((_, m)) => m(&v)?,
                None => v,
            }
        } else {
            let a = field_args(f, d, &env)?;
            let size = |e: &Expr| usize::try_from(e.eval(&env)).map_err(|_| ME::Parse);
            let lim = match &f.lim {
                Lim::None => None,
                Lim::Count(e) => Some(LimV::Count(size(e)?)),
                Lim::Bits(e) => Some(LimV::Bits(size(e)?)),
                Lim::Bytes(e) => Some(LimV::Bits(size(e)?.saturating_mul(8))),
                Lim::Until(e) => Some(LimV::Until(e)),
                Lim::All => Some(LimV::All),
            };
            let ty = f.map.as_ref().map_or(&f.ty, |m| &m.0);
            let want = match &f.hint {
                Hint::None => Want::Any,
                h => Want::Hint(h.clone()),
            };
            let v = dec_ty(ty, &a, lim.as_ref(), rd, &env, &want)?;
            match &f.map {
                Some((_, m)) => m(&v)?,
                None => v,
            }
        };
        env.fields.push(v);
        if let Some(e) = &f.assert {
            if e.eval(&env) == 0 {
                return Err(ME::Assertion);
            }
        }
        if let Some(e) = &f.assert_eq {
            if env.fields.last().unwrap().n() != e.eval(&env) {
                return Err(ME::Assertion);
            }
        }
        if f.pad_bits_after.is_some() || f.pad_bytes_after.is_some() {
            let n = pad_amount(&f.pad_bits_after, &f.pad_bytes_after, &env)?;
            skip(rd, n, o.unwrap_or(O::Msb))?;
        }
    }
    Ok(fields.iter().zip(env.fields).filter(|(f, _)| !f.temp).map(|(_, v)| v).collect())
}

fn bind<'a>(d: &'a Decl, ctx: &'a [i128]) -> &'a [i128] {
    if ctx.is_empty() {
        if let Some(c) = &d.ctx_default {
            return c;
        }
    }
    ctx
}

pub fn variant_matches(v: &VariantD, id: &Val) -> bool {
    if let Some(i) = &v.id {
        return i == id;
    }
    if let Some(p) = &v.pat {
        // the members of a tuple id are 32 bits apart
        let n = match id {
            Val::Rec(i) => i.iter().fold(0, |acc, v| acc << 32 | v.n()),
            id => id.n(),
        };
        return p.iter().any(|(lo, hi)| (*lo..=*hi).contains(&n));
    }
    false
}

/// The variant an id selects
pub fn select(variants: &[VariantD], id: &Val) -> Option<usize> {
    variants.iter().position(|v| variant_matches(v, id)).or_else(|| variants.iter().position(|v| v.default))
}

fn id_args(endian_: &Option<EndianSpec>, order_: &Option<OrderSpec>, bits: Option<usize>, bytes: Option<usize>, d: &Decl, ctx: &[i128]) -> Args {
    Args {
        e: endian(endian_, ctx).or_else(|| endian(&d.endian, ctx)),
        bits,
        bytes,
        o: order(order_, ctx).or_else(|| order(&d.order, ctx)),
        extra: vec![],
    }
}

pub fn decode_decl(d: &Decl, ctx: &[i128], rd: &mut Rd) -> R<Val> {
    rd.depth += 1;
    if rd.depth > 64 {
        return Err(ME::Undef("too deep"));
    }
    let r = decode_decl_(d, ctx, rd);
    rd.depth -= 1;
    r
}

fn decode_decl_(d: &Decl, ctx: &[i128], rd: &mut Rd) -> R<Val> {
    let ctx = bind(d, ctx);
    match &d.kind {
        Kind::Struct { fields, seek } => {
            if let Some(s) = seek {
                rd.seek(s, &Env { fields: vec![], ctx, bit_off: 0, elem: None })?;
            }
            if let Some(m) = d.magic {
                read_magic(m, rd)?;
            }
            Ok(Val::Rec(decode_fields(fields, d, ctx, rd, None)?))
        }
        Kind::Enum { id, variants } => {
            if let Some(m) = d.magic {
                read_magic(m, rd)?;
            }
            let env = Env { fields: vec![], ctx, bit_off: 0, elem: None };
            let (id_val, stored) = match id {
                IdSrc::Ctx(e) => (Val::N(e.eval(&env)), false),
                IdSrc::CtxTup(e) => (Val::Rec(e.iter().map(|e| Val::N(e.eval(&env))).collect()), false),
                IdSrc::Read { ty, endian, order, bits, bytes } => {
                    let a = id_args(endian, order, *bits, *bytes, d, ctx);
                    if let Src::Gen { rng, .. } = &mut rd.src {
                        // choose a variant
                        let v = rng.pick(variants).clone();
                        let target = match (&v.id, &v.pat) {
                            (Some(i), _) => Some(i.clone()),
                            (None, Some(p)) => {
                                let (lo, hi) = *rng.pick(p);
                                let w = match ty {
                                    Ty::Int { w, s } => (*w, *s),
                                    _ => (8, false),
                                };
                                let n = bits.unwrap_or(bytes.map_or(w.0, |b| b * 8));
                                let (tlo, thi) = if w.1 {
                                    (-(1i128 << (n - 1)), (1i128 << (n - 1)) - 1)
                                } else {
                                    (0, mask(n.min(126)) as i128)
                                };
                                let (lo, hi) = (lo.max(tlo), hi.min(thi));
                                if lo > hi {
                                    return Err(ME::Undef("empty pattern"));
                                }
                                let span = hi - lo;
                                Some(Val::N(match rng.below(4) {
                                    0 => lo,
                                    1 => hi,
                                    _ => lo + (rng.u64() as i128).rem_euclid(span.saturating_add(1)),
                                }))
                            }
                            _ => None,
                        };
                        if let Some(t) = target {
                            let mut wr = Force(vec![]);
                            force_val(ty, &t, &a, &mut wr)?;
                            rd.force(&wr.0);
                        }
                    }
                    (dec_ty(ty, &a, None, rd, &env, &Want::Any)?, true)
                }
            };
            let i = select(variants, &id_val).ok_or(ME::Parse)?;
            let v = &variants[i];
            let first = if stored && v.id.is_none() && v.pat.is_some() && !v.fields.is_empty() && variant_matches(v, &id_val) {
                Some(id_val)
            } else {
                None
            };
            Ok(Val::Var(i, decode_fields(&v.fields, d, ctx, rd, first)?))
        }
    }
}

struct Force(Vec<bool>);

/// the bits a generator has to produce so that an id has this value
fn force_val(ty: &Ty, v: &Val, a: &Args, out: &mut Force) -> R<()> {
    match ty {
        Ty::Arr(t, _) => {
            for v in v.items() {
                force_val(t, v, a, out)?;
            }
            Ok(())
        }
        Ty::Tup(t) => {
            for (t, v) in t.iter().zip(v.items()) {
                force_val(t, v, a, out)?;
            }
            Ok(())
        }
        Ty::Named(_) => Err(ME::Undef("id of a named type")),
        _ => {
            let w = match ty {
                Ty::Int { w, .. } => *w,
                _ => 8,
            };
            let n = width(w, a, false)?;
            let (e, o) = (a.e.unwrap_or(NATIVE), a.o.unwrap_or(O::Msb));
            out.0.extend(int_to_seq(v.n() as u128 & mask(n), n, e, o).ok_or(ME::Undef("id does not fit"))?);
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- encode

fn enc_ty(ty: &Ty, v: &Val, a: &Args, wr: &mut Wr) -> R<()> {
    match ty {
        Ty::Int { w, s } | Ty::NonZero { w, s } => enc_int(v.n(), *w, *s, a, wr),
        Ty::Float { w } => enc_int(v.n(), *w, false, a, wr),
        Ty::Bool => enc_int(v.n(), 8, false, a, wr),
        Ty::Unit => Ok(()),
        Ty::CStr => {
            // `bytes` says how to read it
            let a = Args { bytes: None, ..a.clone() };
            let Val::Str(s) = v else { return Err(ME::Undef("not a string")) };
            for b in s.iter().chain(&[0]) {
                enc_int(i128::from(*b), 8, false, &a, wr)?;
            }
            Ok(())
        }
        Ty::Arr(t, _) | Ty::Vec(t) | Ty::Set(t) => {
            for v in v.items() {
                enc_ty(t, v, a, wr)?;
            }
            Ok(())
        }
        Ty::Map(k, t) => {
            let Val::Map(m) = v else { return Err(ME::Undef("not a map")) };
            for (mk, mv) in m {
                enc_ty(k, mk, a, wr)?;
                enc_ty(t, mv, a, wr)?;
            }
            Ok(())
        }
        Ty::Tup(ts) => {
            for (t, v) in ts.iter().zip(v.items()) {
                enc_ty(t, v, a, wr)?;
            }
            Ok(())
        }
        Ty::Opt(t) => match v {
            Val::Opt(Some(v)) => enc_ty(t, v, a, wr),
            _ => Ok(()),
        },
        Ty::Named(d) => encode_decl(d(), v, &a.flat(), wr),
    }
}

fn write_pad(n: usize, o: O, wr: &mut Wr) -> R<()> {
    if n > 1 << 22 {
        return Err(ME::Undef("long padding"));
    }
    wr.push(&vec![false; n], o);
    Ok(())
}

/// The values of all declared fields, with temporary ones filled in
fn full_env<'a>(fields: &[FieldD], vals: &[Val], ctx: &'a [i128]) -> Env<'a> {
    let mut env = Env { fields: vec![], ctx, bit_off: 0, elem: None };
    let mut it = vals.iter();
    for f in fields {
        env.fields.push(if f.temp { Val::N(0) } else { it.next().cloned().unwrap_or(Val::Unit) });
    }
    env
}

fn write_magic(m: &[u8], wr: &mut Wr) {
    for b in m {
        wr.push(&int_to_seq(u128::from(*b), 8, E::Be, O::Msb).unwrap(), O::Msb);
    }
}

fn encode_fields(fields: &[FieldD], d: &Decl, vals: &[Val], ctx: &[i128], wr: &mut Wr, id_args: Option<Args>) -> R<()> {
    let mut env = full_env(fields, vals, ctx);
    let mut id_args = id_args;
    for (i, f) in fields.iter().enumerate() {
        if let Some(a) = id_args.take() {
            enc_ty(&f.ty, &env.fields[i], &a, wr)?;
            continue;
        }
        if let Some(s) = &f.seek {
            wr.seek(s, &env)?;
        }
        if let Some(m) = f.magic {
            write_magic(m, wr);
        }
        let o = order(&f.order, ctx).or_else(|| order(&d.order, ctx));
        if f.pad_bits_before.is_some() || f.pad_bytes_before.is_some() {
            write_pad(pad_amount(&f.pad_bits_before, &f.pad_bytes_before, &env)?, o.unwrap_or(O::Msb), wr)?;
        }
        env.bit_off = wr.bit_offset();
        if let Some(e) = &f.assert {
            if e.eval(&env) == 0 {
                return Err(ME::Assertion);
            }
        }
        if let Some(e) = &f.assert_eq {
            if env.fields[i].n() != e.eval(&env) {
                return Err(ME::Assertion);
            }
        }
        let write = match (&f.skip, &f.cond) {
            (Skip::All | Skip::Write, Some(c)) => c.eval(&env) == 0,
            (Skip::All | Skip::Write, None) => false,
            _ => true,
        };
        if f.temp {
            if let Some(e) = &f.temp_value {
                env.fields[i] = Val::N(e.eval(&env));
            }
        }
        if write && !(f.temp && f.temp_value.is_none()) {
            if let Some(w) = f.writer {
                w(&env.fields[i], wr, &env)?;
            } else {
                let a = field_args(f, d, &env)?;
                enc_ty(&f.ty, &env.fields[i], &a, wr)?;
            }
        }
        if f.pad_bits_after.is_some() || f.pad_bytes_after.is_some() {
            write_pad(pad_amount(&f.pad_bits_after, &f.pad_bytes_after, &env)?, o.unwrap_or(O::Msb), wr)?;
        }
    }
    Ok(())
}

pub fn encode_decl(d: &Decl, v: &Val, ctx: &[i128], wr: &mut Wr) -> R<()> {
    let ctx = bind(d, ctx);
    match (&d.kind, v) {
        (Kind::Struct { fields, seek }, Val::Rec(vals)) => {
            if let Some(s) = seek {
                wr.seek(s, &Env { fields: vec![], ctx, bit_off: 0, elem: None })?;
            }
            if let Some(m) = d.magic {
                write_magic(m, wr);
            }
            encode_fields(fields, d, vals, ctx, wr, None)
        }
        (Kind::Enum { id, variants }, Val::Var(i, vals)) => {
            if let Some(m) = d.magic {
                write_magic(m, wr);
            }
            let var = &variants[*i];
            let mut first = None;
            if let IdSrc::Read { ty, endian, order, bits, bytes } = id {
                let a = id_args(endian, order, *bits, *bytes, d, ctx);
                if let Some(id) = &var.id {
                    enc_ty(ty, id, &a, wr)?;
                } else if var.pat.is_some() && !var.fields.is_empty() {
                    first = Some(a);
                } else {
                    return Err(ME::Undef("no id"));
                }
            }
            encode_fields(&var.fields, d, vals, ctx, wr, first)
        }
        _ => Err(ME::Undef("shape")),
    }
}

/// Model of `update()`
pub fn update(d: &Decl, v: &Val, _ctx: &[i128]) -> R<Val> {
    fn fit(ty: &Ty, n: i128) -> R<Val> {
        match ty {
            Ty::Int { w, s } => {
                let ok = if *s { sign_extend(n as u128 & mask(*w), *w) == n } else { n >= 0 && (n as u128) & !mask(*w) == 0 };
                if ok {
                    Ok(Val::N(n))
                } else {
                    Err(ME::Parse)
                }
            }
            _ => Err(ME::Undef("update of another type")),
        }
    }
    let run = |fields: &[FieldD], vals: &[Val]| -> R<Vec<Val>> {
        let mut env = full_env(fields, vals, &[]);
        for (i, f) in fields.iter().enumerate() {
            if let (Some(e), false) = (&f.update, f.temp) {
                env.fields[i] = fit(&f.ty, e.eval(&env))?;
            }
        }
        Ok(fields.iter().zip(env.fields).filter(|(f, _)| !f.temp).map(|(_, v)| v).collect())
    };
    match (&d.kind, v) {
        (Kind::Struct { fields, .. }, Val::Rec(vals)) => Ok(Val::Rec(run(fields, vals)?)),
        (Kind::Enum { variants, .. }, Val::Var(i, vals)) => Ok(Val::Var(*i, run(&variants[*i].fields, vals)?)),
        _ => Err(ME::Undef("shape")),
    }
}

// ---------------------------------------------------------------- convenience

pub struct Decoded {
    pub val: Val,
    pub bits_read: usize,
    pub touched: usize,
    pub rest: usize,
    pub window: Vec<bool>,
}

pub fn decode(d: &Decl, data: &[u8], off: usize) -> R<Decoded> {
    Ok(decode_n(d, data, off, 1)?.pop().unwrap())
}

/// Several values, one after the other
pub fn decode_n(d: &Decl, data: &[u8], off: usize, n: usize) -> R<Vec<Decoded>> {
    let mut rd = Rd::new(data);
    skip(&mut rd, off, O::Msb)?;
    let mut out = vec![];
    for _ in 0..n {
        let val = decode_decl(d, &[], &mut rd)?;
        out.push(Decoded { val, bits_read: rd.bits_read, touched: rd.bytes_touched(), rest: rd.rest_bits(), window: rd.rest_window() });
    }
    Ok(out)
}

pub fn encode(d: &Decl, v: &Val) -> R<Wr> {
    let mut wr = Wr::default();
    encode_decl(d, v, &[], &mut wr)?;
    Ok(wr)
}

/// Any type, by itself
pub fn read_ty(ty: &Ty, a: &Args, lim: Option<&LimV>, rd: &mut Rd) -> R<Val> {
    let env = Env { fields: vec![], ctx: &[], bit_off: 0, elem: None };
    dec_ty(ty, a, lim, rd, &env, &Want::Any)
}

/// Any type, by itself
pub fn write_ty(ty: &Ty, v: &Val, a: &Args, wr: &mut Wr) -> R<()> {
    enc_ty(ty, v, a, wr)
}

/// A valid value
pub fn generate(d: &Decl, rng: &mut Rng) -> Option<Val> {
    for _ in 0..60 {
        let mut rd = Rd::gen(rng);
        if let Ok(v) = decode_decl(d, &[], &mut rd) {
            return Some(v);
        }
    }
    None
}

pub use crate::model::Expr as X;
pub fn l(n: i128) -> Expr {
    Expr::L(n)
}
pub fn b(op: Bop, a: Expr, c: Expr) -> Expr {
    Expr::B(op, Box::new(a), Box::new(c))
}
pub fn int(w: usize, s: bool) -> Ty {
    Ty::Int { w, s }
}
