//! The instrumented stream: every operation the library performs on it is counted, and can be
//! delivered in pieces, interrupted or made to fail.
use crate::rng::Rng;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

pub const STEP_LIMIT_MSG: &str = "vcore: stream step limit exceeded";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Read { want: usize, got: usize },
    Write { want: usize, got: usize },
    Seek { to: i64 },
    Fail,
    Interrupted,
}

#[derive(Clone, Debug)]
pub struct Mon {
    pub data: Vec<u8>,
    pub pos: u64,
    /// writes beyond this many bytes return Ok(0)
    pub cap: Option<usize>,
    /// the most bytes delivered or accepted per call; 0: everything
    pub chunk: usize,
    /// random chunk sizes and interruptions
    pub rng: Option<Rng>,
    pub interrupt: bool,
    just_interrupted: bool,
    /// the operation (counted from 0) which fails
    pub fail_at: Option<usize>,
    pub fail_kind: ErrorKind,
    /// all operations after it fail as well
    pub sticky: bool,
    pub seekable: bool,
    // observations
    pub ops: usize,
    pub reads: usize,
    pub writes: usize,
    pub seeks: usize,
    pub failed: bool,
    pub interrupted: usize,
    pub max_pos: u64,
    pub max_request: usize,
    pub hit_eof: bool,
    pub step_limit: usize,
    pub log: Option<Vec<Op>>,
}

impl Mon {
    pub fn new(data: Vec<u8>) -> Self {
        Mon {
            data,
            pos: 0,
            cap: None,
            chunk: 0,
            rng: None,
            interrupt: false,
            just_interrupted: false,
            fail_at: None,
            fail_kind: ErrorKind::Other,
            sticky: true,
            seekable: true,
            ops: 0,
            reads: 0,
            writes: 0,
            seeks: 0,
            failed: false,
            interrupted: 0,
            max_pos: 0,
            max_request: 0,
            hit_eof: false,
            step_limit: 20_000_000,
            log: None,
        }
    }
    pub fn chunked(mut self, chunk: usize) -> Self {
        self.chunk = chunk;
        self
    }
    pub fn hostile(mut self, rng: Rng) -> Self {
        self.rng = Some(rng);
        self.interrupt = true;
        self
    }
    pub fn failing(mut self, at: usize, kind: ErrorKind, sticky: bool) -> Self {
        self.fail_at = Some(at);
        self.fail_kind = kind;
        self.sticky = sticky;
        self
    }
    pub fn capped(mut self, cap: usize) -> Self {
        self.cap = Some(cap);
        self
    }
    fn step(&mut self) -> Result<()> {
        let n = self.ops;
        self.ops += 1;
        if self.ops > self.step_limit {
            panic!("{}", STEP_LIMIT_MSG);
        }
        if let Some(at) = self.fail_at {
            if n == at || (self.sticky && n > at) {
                self.failed = true;
                self.note(Op::Fail);
                return Err(Error::from(self.fail_kind));
            }
        }
        Ok(())
    }
    fn interrupt_now(&mut self) -> bool {
        if self.interrupt && !self.just_interrupted {
            if let Some(rng) = &mut self.rng {
                if rng.chance(1, 3) {
                    self.just_interrupted = true;
                    self.interrupted += 1;
                    self.note(Op::Interrupted);
                    return true;
                }
            }
        }
        self.just_interrupted = false;
        false
    }
    fn piece(&mut self, want: usize) -> usize {
        let mut n = want;
        if self.chunk != 0 {
            n = n.min(self.chunk);
        }
        if n > 1 {
            if let Some(rng) = &mut self.rng {
                if rng.chance(1, 2) {
                    n = 1 + rng.below(n);
                }
            }
        }
        n
    }
    fn note(&mut self, op: Op) {
        if let Some(log) = &mut self.log {
            log.push(op);
        }
    }
}

impl Read for Mon {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.step()?;
        self.reads += 1;
        if self.interrupt_now() {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.max_request = self.max_request.max(buf.len());
        let start = (self.pos.min(self.data.len() as u64)) as usize;
        let left = self.data.len() - start;
        let want = buf.len();
        let n = self.piece(want.min(left));
        if n == 0 && want != 0 {
            self.hit_eof = true;
        }
        buf[..n].copy_from_slice(&self.data[start..start + n]);
        self.pos += n as u64;
        self.max_pos = self.max_pos.max(self.pos);
        self.note(Op::Read { want, got: n });
        Ok(n)
    }
}

impl Write for Mon {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.step()?;
        self.writes += 1;
        if self.interrupt_now() {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let want = buf.len();
        self.max_request = self.max_request.max(want);
        let mut n = self.piece(want);
        let start = self.pos as usize;
        if let Some(cap) = self.cap {
            n = n.min(cap.saturating_sub(start));
        }
        if n != 0 {
            if self.data.len() < start + n {
                self.data.resize(start + n, 0);
            }
            self.data[start..start + n].copy_from_slice(&buf[..n]);
        }
        self.pos += n as u64;
        self.max_pos = self.max_pos.max(self.pos);
        self.note(Op::Write { want, got: n });
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

impl Seek for Mon {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.step()?;
        self.seeks += 1;
        if !self.seekable {
            return Err(Error::from(ErrorKind::Unsupported));
        }
        let (base, off) = match to {
            SeekFrom::Start(n) => (0i128, i128::from(n)),
            SeekFrom::Current(n) => (i128::from(self.pos), i128::from(n)),
            SeekFrom::End(n) => (self.data.len() as i128, i128::from(n)),
        };
        let n = base + off;
        if n < 0 || n > i128::from(u64::MAX) {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = n as u64;
        self.note(Op::Seek { to: n as i64 });
        Ok(self.pos)
    }
}
