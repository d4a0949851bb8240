//! Prints what every type of this configuration does with every input, one line per observation:
//! `TYPE #N INPUT | what was observed`. The same lines must come out of every configuration.
use deku::no_std_io::{Error, ErrorKind, Read, Seek, SeekFrom};
use deku::prelude::*;
use std::fmt::{Debug, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};

mod types;
use types::*;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ z >> 31
    }
    fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 11) % n as u64) as usize
    }
}

/// Is the next type in the share of the types which is this process's?
fn mine() -> bool {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    let arg = |i| {
        std::env::args()
            .nth(i)
            .and_then(|s| s.parse::<usize>().ok())
    };
    let (share, shares) = (arg(3).unwrap_or(0), arg(4).unwrap_or(1));
    NEXT.fetch_add(1, Ordering::Relaxed) % shares == share
}

/// A stream which delivers a few bytes at a time and fails when told to
struct Stream<'a> {
    data: &'a [u8],
    pos: u64,
    chunk: usize,
    fail: usize,
    ops: usize,
}

impl Read for Stream<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, Error> {
        self.ops += 1;
        if self.ops > self.fail {
            return Err(Error::new(ErrorKind::TimedOut, "stream"));
        }
        let at = (self.pos as usize).min(self.data.len());
        let n = buf.len().min(self.data.len() - at).min(self.chunk);
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Stream<'_> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64, Error> {
        let n = match to {
            SeekFrom::Start(n) => i128::from(n),
            SeekFrom::Current(n) => i128::from(self.pos) + i128::from(n),
            SeekFrom::End(n) => self.data.len() as i128 + i128::from(n),
        };
        match u64::try_from(n) {
            Ok(n) => {
                self.pos = n;
                Ok(n)
            }
            Err(_) => Err(Error::new(ErrorKind::InvalidInput, "seek")),
        }
    }
}

fn class(e: &DekuError) -> String {
    match e {
        DekuError::Incomplete(n) => format!("Incomplete {}", n.bit_size() != 0),
        DekuError::Parse(_) => "Parse".into(),
        DekuError::InvalidParam(_) => "InvalidParam".into(),
        DekuError::Assertion(_) => "Assertion".into(),
        DekuError::IdVariantNotFound => "IdVariantNotFound".into(),
        DekuError::Io(k) => format!("Io {k:?}"),
        _ => "?".into(),
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().fold(String::new(), |mut s, x| {
        let _ = write!(s, "{x:02x}");
        s
    })
}

fn guard<T>(f: impl FnOnce() -> Result<T, DekuError>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r.map_err(|e| class(&e)),
        Err(_) => Err("PANIC".into()),
    }
}

fn encode<T: DekuContainerWrite>(v: &T, seeks: bool) -> String {
    let mut buf = [0xAA; 700];
    let mut s = match guard(|| v.to_slice(&mut buf)) {
        Ok(n) => hex(&buf[..n]),
        Err(e) => e,
    };
    let mut small = [0; 4];
    let _ = write!(s, " small {:?}", guard(|| v.to_slice(&mut small)));
    #[cfg(feature = "alloc")]
    {
        let b = guard(|| v.to_bytes());
        // they must agree wherever both exist
        let same = match (&b, s.split(' ').next()) {
            (Ok(b), Some(x)) => hex(b) == x || b.len() > 700,
            (Err(e), _) => s.starts_with(e.as_str()),
            _ => false,
        };
        // (seeks from the end go by the size of what is written to)
        if !same && !seeks {
            let _ = write!(s, " to_bytes differs: {b:?}");
        }
        #[cfg(feature = "bits")]
        {
            let bits = guard(|| v.to_bits());
            let same = match (&bits, &b) {
                (Ok(x), Ok(b)) => x.len().div_ceil(8) == b.len(),
                (Err(x), Err(y)) => x == y,
                _ => false,
            };
            if !same {
                let _ = write!(s, " to_bits differs: {bits:?}");
            }
        }
    }
    s
}

fn probe<T>(name: &str, n: usize, seed: u64)
where
    T: for<'a> DekuContainerRead<'a> + DekuContainerWrite + DekuUpdate + Debug,
{
    probe_as::<T>(name, name, n, seed);
}

fn probe_as<T>(shown: &str, name: &str, n: usize, seed: u64)
where
    T: for<'a> DekuContainerRead<'a> + DekuContainerWrite + DekuUpdate + Debug,
{
    if !mine() {
        return;
    }
    let mut rng = Rng(name
        .bytes()
        .fold(seed, |h, b| h.wrapping_mul(31).wrapping_add(u64::from(b))));
    let mut pool: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let mut data: Vec<u8>;
        if !pool.is_empty() && rng.below(4) != 0 {
            data = pool[rng.below(pool.len())].clone();
            match rng.below(5) {
                0 => {
                    let k = rng.below(data.len() + 1);
                    data.truncate(k);
                }
                1 => {
                    for _ in 0..rng.below(9) {
                        data.push(rng.next() as u8);
                    }
                }
                _ => {
                    for _ in 0..=rng.below(3) {
                        if !data.is_empty() {
                            let k = rng.below(data.len());
                            data[k] = if rng.below(2) == 0 {
                                rng.next() as u8
                            } else {
                                data[k] ^ 1 << rng.below(8)
                            };
                        }
                    }
                }
            }
        } else {
            let len = rng.below(match name {
                "PadLong" => if n < 99 { 300 } else { 700 },
                "bits::Mixed" => 180,
                "bits::heap::Unaligned" => 24,
                _ => 90,
            });
            let mode = rng.below(4);
            data = (0..len)
                .map(|_| match mode {
                    0 => rng.next() as u8,
                    1 => rng.below(4) as u8,
                    2 => b"dkEabcdxyz\x01\x02\x03\0"[rng.below(14)],
                    _ => (rng.next() as u8) & (rng.next() as u8) & (rng.next() as u8),
                })
                .collect();
            // the magic bytes of the types above
            match name {
                "Magic" if data.len() > 6 => {
                    data[..2].copy_from_slice(b"dk");
                    data[3..6].copy_from_slice(&[1, 2, 3]);
                }
                "E16" if !data.is_empty() => data[0] = b'E',
                "Size" if data.len() > 18 => data[16..18].copy_from_slice(b"ab"),
                "SizeE" if data.len() > 33 => {
                    data[..5].copy_from_slice(&[b'x', b'y', b'z', rng.below(4) as u8, 0]);
                    data[29..31].copy_from_slice(b"ab");
                }
                _ => {}
            }
        }
        // negative amounts: the first, then the second one
        if i < 2 && ["CountS", "BytesS", "BitsS", "PadSigned"].iter().any(|s| name.ends_with(s)) {
            data = vec![0xff; 40];
            if i == 1 {
                data[..if name.starts_with("bits") { 4 } else { 1 }].fill(0);
            }
        }
        let mut line = String::new();
        let r = guard(|| T::from_bytes((&data, 0)));
        match r {
            Ok(((rest, off), mut v)) => {
                let _ = write!(line, "{v:?} rest {} {off}", rest.len());
                // what was read is a prefix, as long as nothing seeks
                let _ = write!(line, " written {}", encode(&v, name.starts_with("Seek")));
                let u = guard(|| v.update());
                let _ = write!(
                    line,
                    " updated {u:?} {v:?} {}",
                    encode(&v, name.starts_with("Seek"))
                );
                if pool.len() < 40 {
                    pool.push(data.clone());
                }
            }
            Err(e) => line.push_str(&e),
        }
        let mut s = Stream {
            data: &data,
            pos: 0,
            chunk: 1 + rng.below(3),
            fail: usize::MAX,
            ops: 0,
        };
        let r = guard(|| T::from_reader((&mut s, 0)));
        match r {
            Ok((n, v)) => {
                let _ = write!(line, " stream {n} at {} {v:?}", s.pos);
            }
            Err(e) => {
                let _ = write!(line, " stream {e}");
            }
        }
        let mut s = Stream {
            data: &data,
            pos: 0,
            chunk: 64,
            fail: rng.below(5),
            ops: 0,
        };
        let r = guard(|| T::from_reader((&mut s, 0)));
        let _ = write!(line, " failing {:?}", r.map(|_| ()));
        println!("{shown} #{i} {} | {line}", hex(&data));
    }
}

/// The operations of the reader which are there without `bits`
fn reader(from: usize, n: usize, seed: u64) {
    if !mine() {
        return;
    }
    let mut rng = Rng(seed ^ 0x5eed ^ (from as u64) << 20);
    for i in from..from + n {
        let data: Vec<u8> = (0..rng.below(40)).map(|_| rng.next() as u8).collect();
        let mut s = Stream {
            data: &data,
            pos: 0,
            chunk: 1 + rng.below(4),
            fail: if rng.below(4) == 0 {
                rng.below(9)
            } else {
                usize::MAX
            },
            ops: 0,
        };
        let mut r = Reader::new(&mut s);
        let mut line = String::new();
        for _ in 0..rng.below(14) {
            let o = if rng.below(2) == 0 {
                deku::ctx::Order::Msb0
            } else {
                deku::ctx::Order::Lsb0
            };
            let k = rng.below(8);
            let x = rng.below(9);
            let res: Result<String, String> = guard(|| {
                Ok(match k {
                    0 => r.end().to_string(),
                    1 => {
                        let mut b = [0; 10];
                        r.read_bytes(x, &mut b, o)?;
                        hex(&b)
                    }
                    2 => {
                        let mut b = [0; 4];
                        r.read_bytes_const(&mut b, o)?;
                        hex(&b)
                    }
                    3 => {
                        let mut b = [0; 1];
                        r.read_bytes_const_into(&mut b, o)?;
                        hex(&b)
                    }
                    4 => r
                        .seek(SeekFrom::Current(x as i64 - 4))
                        .map_err(DekuError::from)?
                        .to_string(),
                    5 => r
                        .seek(SeekFrom::Start(x as u64 * 3))
                        .map_err(DekuError::from)?
                        .to_string(),
                    6 => u16::from_reader_with_ctx(&mut r, deku::ctx::Endian::Big)?.to_string(),
                    _ => r.end().to_string(),
                })
            });
            let _ = write!(line, "{k} {x} {res:?} {} ", r.bits_read);
            if res.is_err() {
                break;
            }
        }
        println!("Reader #{i} {} | {line}", hex(&data));
    }
}

#[cfg(feature = "logging")]
struct Logger;
#[cfg(feature = "logging")]
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // everything is formatted
        std::hint::black_box(format!("{}", r.args()));
    }
    fn flush(&self) {}
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    #[cfg(feature = "logging")]
    {
        let _ = log::set_logger(&Logger);
        log::set_max_level(log::LevelFilter::Trace);
    }
    let arg = |i| std::env::args().nth(i).and_then(|s| s.parse::<u64>().ok());
    let seed = arg(1).unwrap_or(1);
    let n = arg(2).unwrap_or(100) as usize;
    macro_rules! go {
        ($($t:path),*) => { $( probe::<$t>(stringify!($t), n, seed); )* };
    }
    // what a machine with the other byte order does with types without a byte order
    println!(
        "Host # | {} {}",
        if cfg!(target_endian = "big") {
            "big"
        } else {
            "little"
        },
        usize::BITS
    );
    probe::<Native>("Native", n, seed);
    probe_as::<twin::Native>("Native@big", "Native", n, seed);
    probe::<Word>("Word", n, seed);
    probe_as::<twin::Word>("Word@32", "Word", n, seed);
    go!(
        Big, Little, Sized_, NonZ, Tuple, Unit_, Addr, Magic, Pad, PadSigned, PadLong, PadHuge, Asserts, Cond,
        Update_, Mapped, Offsets, Ctx, CtxUser, SeekStart, SeekEnd, Gen16
    );
    go!(E8, E16, E24, Disc, DiscS, ByArr, ByBool, HasEnum, Temp, Size, SizeE);
    println!(
        "Size # | {} {:?} {} {:?}",
        Size::SIZE_BITS,
        Size::SIZE_BYTES,
        SizeE::SIZE_BITS,
        SizeE::SIZE_BYTES
    );
    // (in four shares: each takes as long as a few types)
    for k in 0..4 {
        reader(k * n * 2, n * 2, seed);
    }
    #[cfg(feature = "alloc")]
    go!(
        heap::Count,
        heap::CountS,
        heap::BytesS,
        heap::CountL,
        heap::BytesL,
        heap::ReadAll,
        heap::Until,
        heap::BytesRead,
        heap::Strings,
        heap::Boxes,
        heap::Outer,
        heap::UpdateV,
        heap::EV
    );
    #[cfg(feature = "std")]
    go!(full::Maps);
    #[cfg(feature = "bits")]
    {
        go!(
            bits::Bits,
            bits::BitsBig,
            bits::BitsLsb,
            bits::BitsLsbBig,
            bits::PadBits,
            bits::EBits,
            bits::Offs,
            bits::Mixed,
            bits::SizeB
        );
        println!(
            "bits::SizeB # | {} {:?}",
            bits::SizeB::SIZE_BITS,
            bits::SizeB::SIZE_BYTES
        );
    }
    #[cfg(all(feature = "bits", feature = "alloc"))]
    go!(
        bits::heap::BitsRead,
        bits::heap::BitsS,
        bits::heap::PadBitsS,
        bits::heap::Unaligned
    );
}
