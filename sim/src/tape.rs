//! The choice tape: every generated value of a run is a draw from it. A run is a pure
//! function of (tape, schedule); zero is always the simplest choice.
use crate::exec::shm;
use std::sync::atomic::Ordering::*;

pub const MAX_TAPE: usize = 1 << 17;

pub struct Tape {
    src: Option<Vec<u32>>,
    pos: usize,
    rng: Rng,
}

#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(crate::sched::mix(seed ^ 0x5DEECE66D) | 1)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        ((self.u64() >> 32) * n as u64 >> 32) as u32
    }
    pub fn range(&mut self, lo: i32, hi: i32) -> i32 {
        lo + self.below((hi - lo + 1) as u32) as i32
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| (self.u64() >> 56) as u8).collect()
    }
}

impl Tape {
    pub fn new(seed: u64, src: Option<Vec<u32>>) -> Tape {
        shm().tape_len.store(0, Relaxed);
        Tape { src, pos: 0, rng: Rng::new(seed) }
    }
    fn put(&mut self, v: u32) {
        if self.pos >= MAX_TAPE {
            crate::exec::verdict("harness", "choice tape too long");
        }
        shm().tape[self.pos].store(v, Relaxed);
        self.pos += 1;
        shm().tape_len.store(self.pos as u32, Relaxed);
    }
    /// A value in 0..n. Uniform when fresh.
    pub fn draw(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.src {
            Some(s) => s.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => self.rng.below(n),
        };
        self.put(v);
        v
    }
    /// lo..=hi, lo simplest
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        if hi <= lo {
            return lo;
        }
        lo + self.draw((hi - lo + 1) as u32) as i64
    }
    /// Index into the weights; the first entry is the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let v = match &self.src {
            Some(s) => {
                // minimising must not produce what cannot be drawn
                let v = (s.get(self.pos).copied().unwrap_or(0) as usize).min(w.len() - 1);
                (0..=v).rev().chain(v..w.len()).find(|&i| w[i] > 0).unwrap_or(v)
            }
            None => {
                let tot: u32 = w.iter().sum();
                let mut r = self.rng.below(tot);
                let mut i = 0;
                while r >= w[i] {
                    r -= w[i];
                    i += 1;
                }
                i
            }
        };
        self.put(v as u32);
        v
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.weighted(&[den - num, num]) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.draw(xs.len() as u32) as usize]
    }
    /// A seed for bulk content that is not worth minimising value by value.
    pub fn seed(&mut self) -> Rng {
        let v = self.draw(1 << 30);
        Rng::new(v as u64)
    }
}
