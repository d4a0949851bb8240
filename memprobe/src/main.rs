//! Elements which own heap memory and are counted one by one, read and written by every container,
//! with failures and panics at every position. Whatever happens, no element may be dropped twice,
//! none may be used before it was read, and none may be left behind. Runs natively, with the
//! address sanitizer, and in Miri.
use deku::ctx::*;
use deku::no_std_io::{Error, ErrorKind, Read, Seek, SeekFrom, Write};
use deku::prelude::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

#[derive(Default)]
struct Ledger {
    next: u64,
    live: BTreeSet<u64>,
    made: u64,
    wrong: Vec<String>,
}

thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

fn ledger<T>(f: impl FnOnce(&mut Ledger) -> T) -> T {
    LEDGER.with(|l| f(&mut l.borrow_mut()))
}

/// (what was read when an element panics may be left behind: not where leaks are looked for)
static PANICS: AtomicBool = AtomicBool::new(true);

/// One byte, on the heap. 0xff cannot be read, 0xfe panics.
pub struct Cell(Box<(u64, u8)>);

impl Cell {
    fn new(tag: u8) -> Self {
        let id = ledger(|l| {
            l.next += 1;
            l.made += 1;
            let id = l.next;
            l.live.insert(id);
            id
        });
        Cell(Box::new((id, tag)))
    }
}

impl Drop for Cell {
    fn drop(&mut self) {
        let id = self.0 .0;
        ledger(|l| {
            if !l.live.remove(&id) {
                l.wrong.push(format!("element {id} was dropped twice"));
            }
        });
    }
}

impl Clone for Cell {
    fn clone(&self) -> Self {
        Cell::new(self.0 .1)
    }
}

impl Debug for Cell {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:02x}", self.0 .1)
    }
}

impl PartialEq for Cell {
    fn eq(&self, o: &Self) -> bool {
        self.0 .1 == o.0 .1
    }
}
impl Eq for Cell {}
impl std::hash::Hash for Cell {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0 .1.hash(h);
    }
}

fn read_cell<R: Read + Seek>(r: &mut Reader<R>) -> Result<Cell, DekuError> {
    let b = u8::from_reader_with_ctx(r, ())?;
    // there is already something to lose
    let cell = Cell::new(b);
    match b {
        0xff => Err(DekuError::Parse("0xff".into())),
        0xfe if PANICS.load(Ordering::Relaxed) => panic!("0xfe"),
        0xfe => Err(DekuError::Parse("0xfe".into())),
        _ => Ok(cell),
    }
}

macro_rules! with_ctx {
    ($($c:ty),*) => { $(
        impl DekuReader<'_, $c> for Cell {
            fn from_reader_with_ctx<R: Read + Seek>(r: &mut Reader<R>, _: $c) -> Result<Self, DekuError> {
                read_cell(r)
            }
        }
        impl DekuWriter<$c> for Cell {
            fn to_writer<W: Write + Seek>(&self, w: &mut Writer<W>, _: $c) -> Result<(), DekuError> {
                self.0 .1.to_writer(w, ())
            }
        }
    )* };
}
with_ctx!((), Endian);

/// The tags of the elements of a value, in the order they are stored in
trait Cells {
    fn cells(&self, out: &mut Vec<u8>);
}
impl Cells for Cell {
    fn cells(&self, out: &mut Vec<u8>) {
        out.push(self.0 .1);
    }
}
impl Cells for u8 {
    fn cells(&self, _: &mut Vec<u8>) {}
}
impl<T: Cells> Cells for [T] {
    fn cells(&self, out: &mut Vec<u8>) {
        self.iter().for_each(|c| c.cells(out));
    }
}
impl<T: Cells, const N: usize> Cells for [T; N] {
    fn cells(&self, out: &mut Vec<u8>) {
        self.iter().for_each(|c| c.cells(out));
    }
}
macro_rules! through {
    ($($t:ty),*) => { $( impl<T: Cells> Cells for $t {
        fn cells(&self, out: &mut Vec<u8>) {
            self.iter().for_each(|c| c.cells(out));
        }
    } )* };
}
through!(Vec<T>, Option<T>, HashSet<T>);
impl<T: Cells + ?Sized> Cells for Box<T> {
    fn cells(&self, out: &mut Vec<u8>) {
        (**self).cells(out);
    }
}
impl<T: Cells + ?Sized> Cells for Arc<T> {
    fn cells(&self, out: &mut Vec<u8>) {
        (**self).cells(out);
    }
}
impl<T: Cells + Clone> Cells for Cow<'static, T> {
    fn cells(&self, out: &mut Vec<u8>) {
        (**self).cells(out);
    }
}
impl<K: Cells, T: Cells> Cells for HashMap<K, T> {
    fn cells(&self, out: &mut Vec<u8>) {
        self.iter().for_each(|(k, v)| {
            k.cells(out);
            v.cells(out);
        });
    }
}
impl<A: Cells, B: Cells, C: Cells> Cells for (A, B, C) {
    fn cells(&self, out: &mut Vec<u8>) {
        self.0.cells(out);
        self.1.cells(out);
        self.2.cells(out);
    }
}
impl<A: Cells, B: Cells> Cells for (A, B) {
    fn cells(&self, out: &mut Vec<u8>) {
        self.0.cells(out);
        self.1.cells(out);
    }
}

macro_rules! cells_of {
    ($t:ident: $($f:tt),*) => {
        impl Cells for $t {
            fn cells(&self, out: &mut Vec<u8>) {
                $( self.$f.cells(out); )*
            }
        }
    };
}

#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
struct Arrays {
    a: [Cell; 1],
    b: [Cell; 3],
    #[deku(pad_bytes_before = "1")]
    c: [[Cell; 2]; 3],
    d: [Cell; 0],
    e: (Cell, [Cell; 2], Cell2),
    f: [(Cell, Cell); 2],
}
cells_of!(Arrays: a, b, c, d, e, f);

#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
struct Cell2(Cell, #[deku(endian = "big")] Cell);
cells_of!(Cell2: 0, 1);

#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
struct Long {
    a: [Cell; 9],
    b: [Box<Cell>; 4],
    #[deku(assert = "a[0].0.1 != 3")]
    c: [Cell; 2],
}
cells_of!(Long: a, b, c);

#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
struct Vecs {
    n: u8,
    #[deku(count = "*n & 7")]
    a: Vec<Cell>,
    #[deku(bytes_read = "*n >> 5")]
    b: Vec<Cell2>,
    #[deku(until = "|c: &Cell| c.0.1 & 3 == 0")]
    c: Vec<Cell>,
    #[deku(count = "2")]
    d: Vec<[Cell; 3]>,
    #[deku(read_all)]
    e: Vec<Cell>,
}
cells_of!(Vecs: a, b, c, d, e);

#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
struct Boxes {
    a: Box<Cell>,
    #[deku(count = "3")]
    b: Box<[Cell]>,
    #[deku(count = "2")]
    c: Arc<[Cell]>,
    d: Arc<Cell>,
    e: Cow<'static, Cell>,
    f: Box<[Cell; 2]>,
    g: Box<Arrays>,
    #[deku(until = "|c: &Cell2| c.0.0.1 & 3 == 0")]
    h: Box<[Cell2]>,
}
cells_of!(Boxes: a, b, c, d, e, f, g, h);

#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
struct Maps {
    #[deku(count = "2")]
    a: HashMap<u8, Cell>,
    #[deku(count = "2")]
    b: HashSet<Cell>,
    #[deku(bytes_read = "4")]
    c: HashMap<Cell, [Cell; 1]>,
    #[deku(count = "1")]
    d: HashSet<Cell>,
}
cells_of!(Maps: a, b, c, d);

#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
enum Enum {
    #[deku(id = 1)]
    A(Cell, [Cell; 2]),
    #[deku(id = 2)]
    B {
        a: Box<Cell>,
        #[deku(cond = "a.0.1 & 1 == 0")]
        b: Option<Cell>,
        #[deku(skip)]
        c: Option<Cell>,
        #[deku(skip, default = "Cell::new(9)")]
        d: Cell,
    },
    #[deku(id = 3)]
    C(#[deku(map = "|c: Cell| -> Result<_, DekuError> { if c.0.1 == 7 { Err(DekuError::Parse(\"7\".into())) } else { Ok(Box::new(c)) } }")] Box<Cell>, Cell),
    #[deku(id_pat = "_")]
    Z(u8, Cell),
}
impl Cells for Enum {
    fn cells(&self, out: &mut Vec<u8>) {
        match self {
            Enum::A(a, b) => {
                a.cells(out);
                b.cells(out);
            }
            Enum::B { a, b, c, d } => {
                a.cells(out);
                b.cells(out);
                c.cells(out);
                d.cells(out);
            }
            Enum::C(a, b) => {
                a.cells(out);
                b.cells(out);
            }
            Enum::Z(_, c) => c.cells(out),
        }
    }
}

macro_rules! discs {
    ($($n:ident, $t:literal, $r:ident);*) => { $(
        #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
        #[repr($r)]
        #[deku(id_type = $t, endian = "little")]
        enum $n {
            A = 1,
            B,
            C = 0x61,
            D = $r::MAX,
        }
        impl Cells for $n {
            fn cells(&self, _: &mut Vec<u8>) {}
        }
    )* };
}
discs!(D8, "u8", u8; D16, "u16", u16; D32, "u32", u32; D64, "u64", u64; I8, "i8", i8; I16, "i16", i16; I32, "i32", i32; I64, "i64", i64; D128, "u128", u128; I128, "i128", i128);

#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
struct Discs {
    a: D8,
    b: D16,
    c: [D32; 2],
    d: D64,
    e: I8,
    f: I16,
    g: I32,
    h: I64,
    i: D128,
    j: I128,
}
impl Cells for Discs {
    fn cells(&self, _: &mut Vec<u8>) {}
}

/// Plain bytes: what is returned must have been read, which Miri knows
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
struct Plain {
    n: u8,
    #[deku(count = "*n")]
    a: Vec<u8>,
    b: [u8; 5],
    #[deku(endian = "big")]
    c: [u16; 3],
    #[deku(bytes = 3, endian = "little")]
    d: u32,
    #[deku(bytes = 13, endian = "big")]
    e: u128,
    f: std::net::Ipv4Addr,
    #[deku(endian = "big")]
    g: std::net::Ipv6Addr,
    s: std::ffi::CString,
    #[deku(count = "*n as usize * 5")]
    h: Box<[u8]>,
    #[deku(pad_bytes_after = "*n")]
    i: u8,
    #[deku(read_all)]
    r: Vec<u16>,
}
impl Cells for Plain {
    fn cells(&self, _: &mut Vec<u8>) {}
}

#[cfg(feature = "bits")]
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
struct Bits {
    #[deku(bits = 3)]
    n: u8,
    a: [Cell; 3],
    #[deku(count = "*n")]
    b: Vec<Cell>,
    #[deku(bits = 5)]
    c: u8,
    #[deku(bits_read = "24")]
    d: Vec<Cell>,
    #[deku(bits = 13, endian = "little")]
    e: u16,
    #[deku(bits = 3, bit_order = "msb")]
    f: u8,
    g: [Cell; 2],
}
#[cfg(feature = "bits")]
cells_of!(Bits: a, b, d, g);

#[cfg(feature = "bits")]
#[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
struct Lsb {
    #[deku(bits = 3)]
    n: u8,
    #[deku(bits = 13)]
    e: u16,
    #[deku(count = "*n", bits = 4)]
    b: Vec<u8>,
    #[deku(bits = 4)]
    c: u8,
    d: u32,
    #[deku(bits = 27)]
    f: u64,
    #[deku(bits = 5)]
    g: i8,
}
#[cfg(feature = "bits")]
impl Cells for Lsb {
    fn cells(&self, _: &mut Vec<u8>) {}
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ z >> 31
    }
    fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 11) % n as u64) as usize
    }
}

struct Stream<'a> {
    data: &'a [u8],
    pos: u64,
    chunk: usize,
    fail: usize,
    ops: usize,
}
impl Read for Stream<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, Error> {
        self.ops += 1;
        if self.ops > self.fail {
            return Err(Error::new(ErrorKind::TimedOut, "stream"));
        }
        let at = (self.pos as usize).min(self.data.len());
        let n = buf.len().min(self.data.len() - at).min(self.chunk);
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Stream<'_> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64, Error> {
        let n = match to {
            SeekFrom::Start(n) => i128::from(n),
            SeekFrom::Current(n) => i128::from(self.pos) + i128::from(n),
            SeekFrom::End(n) => self.data.len() as i128 + i128::from(n),
        };
        match u64::try_from(n) {
            Ok(n) => {
                self.pos = n;
                Ok(n)
            }
            Err(_) => Err(Error::new(ErrorKind::InvalidInput, "seek")),
        }
    }
}

/// A sink which fails after a number of writes
struct Sink {
    data: Vec<u8>,
    left: usize,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> Result<usize, Error> {
        if self.left == 0 {
            return Err(Error::new(ErrorKind::BrokenPipe, "sink"));
        }
        self.left -= 1;
        self.data.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> Result<(), Error> {
        Ok(())
    }
}
impl Seek for Sink {
    fn seek(&mut self, _: SeekFrom) -> Result<u64, Error> {
        Ok(self.data.len() as u64)
    }
}

#[derive(Default)]
struct Totals {
    runs: u64,
    accepted: u64,
    refused: u64,
    panicked: u64,
    partial: u64,
    made: u64,
    shapes: BTreeSet<String>,
}

fn complain(name: &str, data: &[u8], how: &str, what: &str) {
    println!("WRONG {name} {data:02x?} {how}: {what}");
}

/// After an operation: how many elements it left alive, and what was wrong
fn settle(name: &str, data: &[u8], how: &str, value: Option<&Vec<u8>>, panicked: bool) {
    let (live, wrong) = ledger(|l| (l.live.len(), std::mem::take(&mut l.wrong)));
    for w in wrong {
        complain(name, data, how, &w);
    }
    let expected = value.map_or(0, Vec::len);
    if live < expected {
        complain(name, data, how, &format!("the value holds {expected} elements, of which {live} are alive"));
    }
    // what was read when an element panics may be left behind
    if live > expected && !panicked {
        complain(name, data, how, &format!("{} elements were left behind", live - expected));
    }
}

fn probe<T>(name: &str, n: usize, seed: u64, totals: &mut Totals)
where
    T: for<'a> DekuContainerRead<'a> + DekuContainerWrite + DekuUpdate + Debug + Clone + PartialEq + Cells,
{
    let mut rng = Rng(name.bytes().fold(seed, |h, b| h.wrapping_mul(31).wrapping_add(u64::from(b))));
    let mut pool: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let mut data: Vec<u8>;
        if !pool.is_empty() && rng.below(8) != 0 {
            data = pool[rng.below(pool.len())].clone();
            let at = rng.below(data.len() + 1);
            match rng.below(4) {
                0 => data.truncate(at),
                1 if at < data.len() => data[at] = 0xff,
                2 if at < data.len() => data[at] = 0xfe,
                _ if at < data.len() => data[at] = rng.below(128) as u8,
                _ => data.push(5),
            }
        } else {
            data = (0..rng.below(70)).map(|_| rng.below(100) as u8).collect();
            if name == "Discs" {
                data.clear();
                for k in [1, 2, 4, 4, 8, 1, 2, 4, 8, 16, 16] {
                    match rng.below(4) {
                        0 => data.extend(std::iter::repeat_n(0xff, k - 1).chain([if data.len() > 18 && data.len() != 50 { 0x7f } else { 0xff }])),
                        x => data.extend([[1, 2, 0x61][x - 1]].into_iter().chain(std::iter::repeat_n(0, k - 1))),
                    }
                }
            }
        }
        let how = if i % 2 == 0 { "from_bytes" } else { "from_reader" };
        ledger(|l| {
            l.live.clear();
            l.wrong.clear();
        });
        let chunk = 1 + rng.below(4);
        let fail = if rng.below(3) == 0 { rng.below(30) } else { usize::MAX };
        let made = ledger(|l| l.made);
        let r = catch_unwind(AssertUnwindSafe(|| {
            if i % 2 == 0 {
                T::from_bytes((&data, 0)).map(|((rest, off), v)| (data.len() - rest.len() + usize::from(off != 0), v))
            } else {
                let mut s = Stream { data: &data, pos: 0, chunk, fail, ops: 0 };
                T::from_reader((&mut s, 0)).map(|(n, v)| (n.div_ceil(8), v))
            }
        }));
        totals.runs += 1;
        let now = ledger(|l| l.made);
        totals.made += now - made;
        match r {
            Err(_) => {
                totals.panicked += 1;
                settle(name, &data, how, None, true);
            }
            Ok(Err(e)) => {
                totals.refused += 1;
                if now > made {
                    totals.partial += 1;
                    totals.shapes.insert(format!("{name} refused after {}", now - made));
                }
                drop(e);
                settle(name, &data, how, None, false);
            }
            Ok(Ok((used, v))) => {
                totals.accepted += 1;
                if pool.len() < 30 {
                    pool.push(data.clone());
                }
                let mut cells = vec![];
                v.cells(&mut cells);
                totals.shapes.insert(format!("{name} of {}", cells.len()));
                settle(name, &data, how, Some(&cells), false);
                // every element is there, with the byte it was read from
                let mut rest: Vec<u8> = data[..used].to_vec();
                for c in &cells {
                    match rest.iter().position(|b| b == c) {
                        Some(k) => {
                            rest.remove(k);
                        }
                        None if *c == 9 || name == "Bits" => {}
                        None => complain(name, &data, how, &format!("element {c:02x} is not in the data")),
                    }
                }
                let copy = v.clone();
                let written = copy.to_bytes();
                let mut small = vec![0; rng.below(used + 2)];
                let _ = copy.to_slice(&mut small);
                let mut sink = Sink { data: vec![], left: rng.below(used + 2) };
                let _ = copy.to_writer(&mut Writer::new(&mut sink), ());
                let mut copy = copy;
                let _ = copy.update();
                if copy != v {
                    complain(name, &data, how, "a written copy has changed");
                }
                drop(copy);
                settle(name, &data, "writing", Some(&cells), false);
                if let Ok(b) = written {
                    if b.len() != used && name != "Enum" && name != "Maps" {
                        complain(name, &data, how, &format!("read {used} bytes, written {}", b.len()));
                    }
                }
                drop(v);
                settle(name, &data, "dropping", None, false);
            }
        }
    }
}

fn main() {
    let arg = |i| std::env::args().nth(i).and_then(|s| s.parse::<usize>().ok());
    let seed = arg(1).unwrap_or(1) as u64;
    let n = arg(2).unwrap_or(1000);
    let (share, shares) = (arg(3).unwrap_or(0), arg(4).unwrap_or(1));
    PANICS.store(arg(5).unwrap_or(1) == 1, Ordering::Relaxed);
    std::panic::set_hook(Box::new(|_| {}));
    let mut t = Totals::default();
    let mut k = 0;
    macro_rules! go {
        ($($t:ident),*) => { $(
            if k % shares == share {
                probe::<$t>(stringify!($t), n, seed, &mut t);
            }
            k += 1;
        )* };
    }
    go!(Arrays, Long, Vecs, Boxes, Maps, Enum, Discs, Plain);
    #[cfg(feature = "bits")]
    go!(Bits, Lsb);
    let _ = k;
    println!("TOTAL {} {} {} {} {} {}", t.runs, t.accepted, t.refused, t.panicked, t.partial, t.made);
    for s in &t.shapes {
        println!("SHAPE {s}");
    }
}
