//! The simulated source: decides how the byte sequence is cut into reads, and injects
//! interruptions, stalls, errors, premature end of data, panics and everlasting blocking.
use crate::exec::{add, cnt, C};
use crate::mem;
use crate::sched;
use crate::tape::{Rng, Tape};
use std::cell::UnsafeCell;
use std::io::{self, ErrorKind, Read};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Chunk {
    Full,
    One,
    Fixed(usize),
    Rand { seed: u64, max: usize },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    Eintr(u32),
    Stall(u64),
    /// error; stays at this position for ever (persistent) or happens once
    Err { kind: ErrorKind, id: u32, persistent: bool, raw: Option<i32> },
    /// from here on the source has ended
    Eof,
    /// reports end of data once, then goes on
    EofOnce,
    Panic,
    Block,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub chunk: Chunk,
    /// sorted by offset
    pub faults: Vec<(usize, Fault)>,
    /// per mille of reads that are interrupted first / stalled first
    pub eintr: u32,
    pub stall: u32,
    pub noise_seed: u64,
}
impl Plan {
    pub fn plain() -> Plan {
        Plan { chunk: Chunk::Full, faults: vec![], eintr: 0, stall: 0, noise_seed: 1 }
    }
    pub fn with(mut self, off: usize, f: Fault) -> Plan {
        self.faults.push((off, f));
        self.faults.sort_by_key(|x| x.0);
        self
    }
    /// A random way of delivering the same bytes: no fault that may change a result.
    pub fn draw_benign(t: &mut Tape) -> Plan {
        let chunk = match t.weighted(&[3, 2, 2, 3]) {
            0 => Chunk::Full,
            1 => Chunk::One,
            2 => Chunk::Fixed(t.range(1, 19) as usize),
            _ => Chunk::Rand { seed: t.draw(1 << 30) as u64, max: *t.pick(&[2, 3, 7, 16, 64, 700]) },
        };
        let eintr = *t.pick(&[0, 0, 20, 200, 500]);
        let stall = *t.pick(&[0, 0, 0, 5, 50]);
        Plan { chunk, faults: vec![], eintr, stall, noise_seed: t.draw(1 << 30) as u64 }
    }
}

#[derive(Debug)]
pub struct SimErr(pub u32);
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "simulated source error #{}", self.0)
    }
}
impl std::error::Error for SimErr {}

pub struct InjectedPanic;

pub struct State {
    pub data: Arc<Vec<u8>>,
    pub plan: Plan,
    pub pos: usize,
    pub fi: usize,
    pub reads: u64,
    /// number of the read at which a failing fault fired first
    pub failed_at_read: Option<u64>,
    /// reads made after a failure was reported (in the same call or later)
    pub reads_since_fail: u64,
    pub fired: Vec<usize>,
    pub hit_end: bool,
    pub dropped: bool,
    eintr_left: u32,
    rng: Rng,
    crng: Rng,
    empty_reads: u64,
}
pub struct Shared(UnsafeCell<State>);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl Shared {
    #[allow(clippy::mut_from_ref)]
    pub fn st(&self) -> &mut State {
        unsafe { &mut *self.0.get() }
    }
}

pub struct SimReader(pub Arc<Shared>);
impl Drop for SimReader {
    fn drop(&mut self) {
        self.0.st().dropped = true;
    }
}

pub fn source(data: Arc<Vec<u8>>, plan: Plan) -> Arc<Shared> {
    let s = plan.noise_seed;
    let cs = match plan.chunk {
        Chunk::Rand { seed, .. } => seed,
        _ => 1,
    };
    let nf = plan.faults.len();
    Arc::new(Shared(UnsafeCell::new(State {
        data,
        plan,
        pos: 0,
        fi: 0,
        reads: 0,
        failed_at_read: None,
        reads_since_fail: 0,
        fired: Vec::with_capacity(nf + 1),
        hit_end: false,
        dropped: false,
        eintr_left: 0,
        rng: Rng::new(s),
        crng: Rng::new(cs),
        empty_reads: 0,
    })))
}

impl State {
    fn fail(&mut self) {
        self.failed_at_read = Some(self.reads);
        self.reads_since_fail = 0;
    }
    fn mark(&mut self) {
        if self.fired.last() != Some(&self.fi) && self.fired.len() < self.fired.capacity() {
            self.fired.push(self.fi);
        }
    }
    fn do_read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.failed_at_read.is_some() {
            self.reads_since_fail += 1;
        }
        if self.eintr_left > 0 {
            self.eintr_left -= 1;
            return Err(ErrorKind::Interrupted.into());
        }
        // random interruptions and stalls; bounded so that retry loops end
        if self.plan.eintr > 0 && self.rng.below(1000) < self.plan.eintr {
            self.eintr_left = match self.rng.below(4000) {
                // a storm of signals
                0 => {
                    let most = 1 << (2 + self.rng.below(12));
                    self.rng.below(most)
                }
                1..=500 => self.rng.below(4),
                _ => 0,
            };
            cnt(C::FaultEintr);
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        if self.plan.stall > 0 && self.rng.below(1000) < self.plan.stall {
            cnt(C::FaultStall);
            if sched::controlled() {
                // from a millisecond to more than an hour of simulated time
                sched::sleep((1_000_000 + self.rng.below(1_000_000) as u64) << self.rng.below(23));
            }
        }
        let mut limit = self.data.len();
        while self.fi < self.plan.faults.len() {
            let (off, f) = self.plan.faults[self.fi].clone();
            if off < self.pos {
                self.fi += 1;
                continue;
            }
            if off > self.pos {
                limit = limit.min(off);
                break;
            }
            // the fault is due now
            self.mark();
            match f {
                Fault::Eintr(n) => {
                    self.fi += 1;
                    self.eintr_left = n.saturating_sub(1);
                    cnt(C::FaultEintr);
                    return Err(io::Error::from(ErrorKind::Interrupted));
                }
                Fault::Stall(ns) => {
                    self.fi += 1;
                    cnt(C::FaultStall);
                    if sched::controlled() {
                        sched::sleep(ns);
                    }
                }
                Fault::Err { kind, id, persistent, raw } => {
                    if !persistent {
                        self.fi += 1;
                        cnt(C::FaultIoTransient);
                    } else {
                        cnt(C::FaultIoPersist);
                    }
                    self.fail();
                    return Err(match raw {
                        Some(r) => io::Error::from_raw_os_error(r),
                        None => io::Error::new(kind, SimErr(id)),
                    });
                }
                Fault::Eof => {
                    cnt(C::FaultEof);
                    self.fail();
                    return self.eof();
                }
                Fault::EofOnce => {
                    self.fi += 1;
                    cnt(C::FaultEof);
                    self.fail();
                    return self.eof();
                }
                Fault::Panic => {
                    self.fi += 1;
                    cnt(C::FaultPanic);
                    self.fail();
                    std::panic::panic_any(InjectedPanic);
                }
                Fault::Block => {
                    cnt(C::FaultBlock);
                    if sched::controlled() {
                        sched::block_forever();
                    }
                    unreachable!();
                }
            }
        }
        if self.pos >= self.data.len() {
            self.hit_end = true;
            self.fail();
            return self.eof();
        }
        let avail = limit.min(self.data.len()) - self.pos;
        let want = match self.plan.chunk {
            Chunk::Full => buf.len(),
            Chunk::One => 1,
            Chunk::Fixed(n) => n,
            Chunk::Rand { max, .. } => 1 + self.crng.below(max as u32) as usize,
        };
        let n = buf.len().min(avail).min(want);
        if n < buf.len() {
            cnt(C::FaultShortRead);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        add(C::BytesFed, n as u64);
        if sched::controlled() {
            sched::more_decisions();
        }
        Ok(n)
    }
    fn eof(&mut self) -> io::Result<usize> {
        self.empty_reads += 1;
        if self.empty_reads > 100_000 {
            crate::exec::verdict("endless-reads", "the decoder keeps reading at end of data");
        }
        Ok(0)
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        mem::harness(|| {
            if sched::controlled() {
                sched::point();
            }
            if buf.is_empty() {
                return Ok(0);
            }
            self.0.st().do_read(buf)
        })
    }
}
