//! Deterministic scheduler.
//!
//! Real OS threads (std threads of the system under test, real rayon pool
//! threads, simulated client threads) run one at a time. Every place where
//! the choice of the next thread could matter is a decision of this module:
//! futex waits and wakes (std mutexes, condvars, channels, park), yields,
//! sleeps, thread creation, join and exit, and -- through compiler-inserted
//! coverage callbacks -- any basic-block edge inside the system under test.
//!
//! A decision has a deterministic default; a seeded policy deviates from it.
//! The deviations are recorded and are, together with the choice tape, a
//! complete description of an execution.

use crate::exec::{cnt, shm, C};
use crate::interpose as ip;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

pub const MAXT: usize = 60;
pub const MAX_DEVS: usize = 1 << 15;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Free,
    Ready,
    Fut { addr: usize, mask: u32, deadline: u64 },
    Sleep { deadline: u64 },
    Join { tid: usize },
    Forever,
    Drain,
    Done,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Role {
    Main,
    Client,
    Pool,
    Sut,
}

#[repr(align(64))]
struct Park(AtomicU32);

pub struct Th {
    pub st: St,
    pub role: Role,
    pub pthread: usize,
    pub reason: i32,
    pub prio: u32,
    pub fut_seq: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C)]
pub struct Dev {
    pub at: u64,
    /// b'D' decision, b'E' preemption at coverage edge, b'S' spurious wake, b'T' timer fires early,
    /// b'W' wake order
    pub kind: u8,
    pub tid: u8,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Policy {
    pub seed: u64,
    /// per mille: deviate at a decision point
    pub p_switch: u32,
    /// mean number of edges between preemptions, 0 = none
    pub gap: u32,
    /// bit mask of slow threads
    pub victims: u64,
    /// per 10000 spurious wakes
    pub p_spur: u32,
    /// per mille early timers
    pub p_timer: u32,
    /// random priorities with this many change points (0 = off)
    pub pct: u32,
}

impl Policy {
    pub const SEQ: Policy = Policy { seed: 0, p_switch: 0, gap: 0, victims: 0, p_spur: 0, p_timer: 0, pct: 0 };
}

#[derive(Clone, Debug)]
pub enum Sched {
    Policy(Policy),
    Fixed(Vec<Dev>),
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Block,
    Wake,
    Yield,
    Spawn,
    Exit,
    Point,
}

struct S {
    th: Vec<Th>,
    n: usize,
    cur: usize,
    decisions: u64,
    switches: u64,
    preempts: u64,
    now: u64,
    pol: Policy,
    rng: u64,
    fixed: bool,
    fix_d: Vec<Dev>,
    fix_e: Vec<Dev>,
    pd: usize,
    pe: usize,
    hash: u64,
    fut_seq: u64,
    pct_low: u32,
    pct_next: Vec<u64>,
    spawn_seq: u64,
    spawn_fail: Vec<u64>,
    spawn_fail_all_from: u64,
    spawn_fail_first: u64,
    max_decisions: u64,
    max_ready: u32,
    quiet: bool,
    made: [usize; 4],
}

static mut SCHED: Option<Box<S>> = None;
static PARKS: [Park; MAXT] = [const { Park(AtomicU32::new(0)) }; MAXT];
static mut ACTIVE: bool = false;
pub static EDGES: AtomicU64 = AtomicU64::new(0);
static NEXT_EDGE: AtomicU64 = AtomicU64::new(u64::MAX);
static EDGE_BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
static NEXT_ROLE: AtomicU32 = AtomicU32::new(3);

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    /// >0: preemption by coverage edges is suppressed on this thread
    static NOPREEMPT: Cell<u32> = const { Cell::new(0) };
}

#[inline]
#[allow(static_mut_refs)]
fn s() -> &'static mut S {
    unsafe { SCHED.as_mut().unwrap() }
}

#[inline]
pub fn active() -> bool {
    unsafe { ACTIVE }
}

/// Is the calling thread under control of the simulator?
#[inline]
pub fn controlled() -> bool {
    active() && tid() >= 0
}

#[inline]
pub fn tid() -> i32 {
    TID.with(|t| t.get())
}

pub fn role() -> Role {
    let t = tid();
    if t < 0 || !active() {
        Role::Main
    } else {
        s().th[t as usize].role
    }
}

pub fn no_preempt<T>(f: impl FnOnce() -> T) -> T {
    NOPREEMPT.with(|n| n.set(n.get() + 1));
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            NOPREEMPT.with(|n| n.set(n.get() - 1));
        }
    }
    let _g = G;
    f()
}

fn next(rng: &mut u64) -> u64 {
    *rng ^= *rng << 13;
    *rng ^= *rng >> 7;
    *rng ^= *rng << 17;
    rng.wrapping_mul(0x2545F4914F6CDD1D)
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn start(sched: &Sched, edge_budget: u64) {
    let mut th = Vec::with_capacity(MAXT);
    for _ in 0..MAXT {
        th.push(Th { st: St::Free, role: Role::Sut, pthread: 0, reason: 0, prio: 0, fut_seq: 0 });
    }
    th[0].st = St::Ready;
    th[0].role = Role::Main;
    let (pol, fixed, devs) = match sched {
        Sched::Policy(p) => (*p, false, vec![]),
        Sched::Fixed(d) => (Policy::SEQ, true, d.clone()),
    };
    let fix_d: Vec<Dev> = devs.iter().copied().filter(|d| d.kind != b'E').collect();
    let fix_e: Vec<Dev> = devs.iter().copied().filter(|d| d.kind == b'E').collect();
    let mut sc = Box::new(S {
        th,
        n: 1,
        cur: 0,
        decisions: 0,
        switches: 0,
        preempts: 0,
        now: 0,
        pol,
        rng: mix(pol.seed) | 1,
        fixed,
        fix_d,
        fix_e,
        pd: 0,
        pe: 0,
        hash: 0xcbf29ce484222325,
        fut_seq: 0,
        pct_low: 1 << 20,
        pct_next: vec![],
        spawn_seq: 0,
        spawn_fail: vec![],
        spawn_fail_all_from: u64::MAX,
        spawn_fail_first: 0,
        max_decisions: 3_000_000,
        max_ready: 0,
        quiet: false,
        made: [0; 4],
    });
    if pol.pct > 0 {
        let mut v: Vec<u64> = (0..pol.pct)
            .map(|_| {
                // change points log-uniform over the run
                let b = 6 + next(&mut sc.rng) % 16;
                next(&mut sc.rng) % (1 << b)
            })
            .collect();
        v.sort();
        v.reverse();
        sc.pct_next = v;
        sc.th[0].prio = (1 << 21) + (next(&mut sc.rng) % (1 << 20)) as u32;
    }
    EDGES.store(0, Relaxed);
    EDGE_BUDGET.store(edge_budget, Relaxed);
    unsafe {
        SCHED = Some(sc);
        TID.with(|t| t.set(0));
        ACTIVE = true;
    }
    plan_next_edge();
}

/// Ask for pthread_create to fail: for the listed sequence numbers of thread
/// creations by the system under test, for the first `first`, and for all from `from` on.
pub fn fail_spawns(list: Vec<u64>, first: u64, from: u64) {
    let sc = s();
    sc.spawn_fail = list;
    sc.spawn_fail_first = first;
    sc.spawn_fail_all_from = from;
}
pub fn spawn_count() -> u64 {
    s().spawn_seq
}

pub fn set_edge_budget(total: u64) {
    EDGE_BUDGET.store(total, Relaxed);
    plan_next_edge();
}
/// Suspend (true) or resume (false) the seeded policy: while it is suspended every decision
/// takes its default.
pub fn quiet(on: bool) {
    s().quiet = on;
    plan_next_edge();
}
pub fn edges() -> u64 {
    EDGES.load(Relaxed)
}
pub fn now() -> u64 {
    if active() {
        s().now
    } else {
        0
    }
}
pub struct Summary {
    pub decisions: u64,
    pub switches: u64,
    pub preempts: u64,
    pub edges: u64,
    pub now: u64,
    pub hash: u64,
    pub threads: u64,
    pub max_ready: u32,
}
pub fn summary() -> Summary {
    let sc = s();
    Summary {
        decisions: sc.decisions,
        switches: sc.switches,
        preempts: sc.preempts,
        edges: edges(),
        now: sc.now,
        hash: sc.hash,
        threads: sc.n as u64,
        max_ready: sc.max_ready,
    }
}

/// Threads (other than main) that are neither finished nor blocked for good in a pool.
pub fn threads_by_role(r: Role) -> (usize, usize) {
    let sc = s();
    let live = sc.th[..sc.n].iter().filter(|t| t.role == r && t.st != St::Done).count();
    (sc.made[r as usize], live)
}
pub fn describe() -> String {
    let sc = s();
    let mut o = String::new();
    for (i, t) in sc.th[..sc.n].iter().enumerate() {
        let st = match t.st {
            St::Fut { .. } => "futex-wait".to_string(),
            St::Sleep { .. } => "sleep".to_string(),
            x => format!("{:?}", x),
        };
        o.push_str(&format!("t{}:{:?}:{} ", i, t.role, st));
    }
    o
}

pub fn with_role<T>(r: Role, f: impl FnOnce() -> T) -> T {
    let old = NEXT_ROLE.swap(r as u32, Relaxed);
    let v = f();
    NEXT_ROLE.store(old, Relaxed);
    v
}

impl S {
    fn record(&mut self, at: u64, kind: u8, tid: usize) {
        crate::exec::record_dev(Dev { at, kind, tid: tid as u8 });
    }

    fn ready_mask(&self) -> u64 {
        let mut m = 0;
        for i in 0..self.n {
            if self.th[i].st == St::Ready {
                m |= 1 << i;
            }
        }
        m
    }

    fn earliest_timer(&self) -> Option<(u64, usize)> {
        let mut best: Option<(u64, usize)> = None;
        for i in 0..self.n {
            let d = match self.th[i].st {
                St::Sleep { deadline } => deadline,
                St::Fut { deadline, .. } => deadline,
                _ => u64::MAX,
            };
            if d != u64::MAX && best.map_or(true, |b| d < b.0) {
                best = Some((d, i));
            }
        }
        best
    }

    fn fire_timer(&mut self, d: u64, i: usize) {
        if d > self.now {
            self.now = d;
        }
        self.th[i].reason = if matches!(self.th[i].st, St::Fut { .. }) { libc::ETIMEDOUT } else { 0 };
        self.th[i].st = St::Ready;
    }

    fn rr(&self, mask: u64, cur: usize) -> usize {
        for k in 1..=self.n {
            let i = (cur + k) % self.n;
            if mask >> i & 1 == 1 {
                return i;
            }
        }
        cur
    }

    fn pick_rand(&mut self, mask: u64) -> usize {
        let k = mask.count_ones() as u64;
        let mut r = next(&mut self.rng) % k;
        for i in 0..self.n {
            if mask >> i & 1 == 1 {
                if r == 0 {
                    return i;
                }
                r -= 1;
            }
        }
        unreachable!()
    }

    fn top_prio(&self, mask: u64) -> usize {
        let mut best = usize::MAX;
        for i in 0..self.n {
            if mask >> i & 1 == 1 && (best == usize::MAX || self.th[i].prio > self.th[best].prio) {
                best = i;
            }
        }
        best
    }

    /// Choose who runs next. The current thread's state is already updated.
    fn decide(&mut self, kind: Kind) -> usize {
        let cur = self.cur;
        self.decisions += 1;
        let idx = self.decisions;
        if idx > self.max_decisions {
            crate::exec::verdict("hang", &format!("more than {} scheduling decisions: {}", self.max_decisions, describe()));
        }
        // injected spurious wakes and early timers
        if self.fixed {
            while self.pd < self.fix_d.len() && (self.fix_d[self.pd].at < idx || (self.fix_d[self.pd].at == idx && self.fix_d[self.pd].kind != b'D')) {
                let d = self.fix_d[self.pd];
                self.pd += 1;
                if d.at == idx {
                    let i = d.tid as usize;
                    if d.kind == b'S' && i < self.n && matches!(self.th[i].st, St::Fut { .. }) {
                        self.th[i].st = St::Ready;
                        self.th[i].reason = 0;
                        cnt(C::FaultSpuriousWake);
                    } else if d.kind == b'T' {
                        if let Some((t, i)) = self.earliest_timer() {
                            self.fire_timer(t, i);
                            cnt(C::FaultEarlyTimer);
                        }
                    }
                    self.record(idx, d.kind, i);
                }
            }
        } else if !self.quiet {
            if self.pol.p_spur > 0 && next(&mut self.rng) % 10000 < self.pol.p_spur as u64 {
                let mut m = 0u64;
                for i in 0..self.n {
                    if matches!(self.th[i].st, St::Fut { .. }) && i != cur {
                        m |= 1 << i;
                    }
                }
                if m != 0 {
                    let i = self.pick_rand(m);
                    self.th[i].st = St::Ready;
                    self.th[i].reason = 0;
                    self.record(idx, b'S', i);
                    cnt(C::FaultSpuriousWake);
                }
            }
            if self.pol.p_timer > 0 && next(&mut self.rng) % 1000 < self.pol.p_timer as u64 {
                if let Some((t, i)) = self.earliest_timer() {
                    if i != cur {
                        self.fire_timer(t, i);
                        self.record(idx, b'T', i);
                        cnt(C::FaultEarlyTimer);
                    }
                }
            }
        }
        let mut mask = self.ready_mask();
        while mask == 0 {
            if let Some((d, i)) = self.earliest_timer() {
                self.fire_timer(d, i);
            } else if let Some(i) = (0..self.n).find(|&i| self.th[i].st == St::Drain) {
                self.th[i].st = St::Ready;
            } else {
                crate::exec::verdict("deadlock", &format!("no thread can run: {}", describe()));
            }
            mask = self.ready_mask();
        }
        let c = mask.count_ones();
        if c > self.max_ready {
            self.max_ready = c;
        }
        let cur_ready = mask >> cur & 1 == 1;
        let def = match kind {
            Kind::Yield => self.rr(mask, cur),
            _ if cur_ready => cur,
            _ => self.rr(mask, cur),
        };
        if c == 1 {
            return def;
        }
        let ch = if self.fixed {
            if self.pd < self.fix_d.len() && self.fix_d[self.pd].at == idx {
                let d = self.fix_d[self.pd];
                self.pd += 1;
                if mask >> d.tid & 1 == 1 {
                    d.tid as usize
                } else {
                    def
                }
            } else {
                def
            }
        } else {
            self.policy_choice(kind, def, mask)
        };
        if ch != def {
            self.record(idx, b'D', ch);
        }
        ch
    }

    fn policy_choice(&mut self, kind: Kind, def: usize, mask: u64) -> usize {
        if self.quiet {
            return def;
        }
        if self.pol.pct > 0 {
            let m = if kind == Kind::Yield && mask != 1 << self.cur { mask & !(1 << self.cur) } else { mask };
            if kind == Kind::Yield {
                // a yielding thread steps behind everyone else
                self.pct_low -= 1;
                self.th[self.cur].prio = self.pct_low;
            }
            return self.top_prio(m);
        }
        let mut ch = def;
        if self.pol.p_switch > 0 && next(&mut self.rng) % 1000 < self.pol.p_switch as u64 {
            ch = self.pick_rand(mask);
        }
        let v = self.pol.victims;
        if v != 0 && v >> ch & 1 == 1 && mask & !v != 0 && next(&mut self.rng) % 24 != 0 {
            ch = self.pick_rand(mask & !v);
        }
        ch
    }

    fn note_switch(&mut self, kind: Kind, to: usize) {
        self.hash = (self.hash ^ (kind as u64 * 64 + to as u64)).wrapping_mul(0x100000001b3);
    }
}

fn plan_next_edge() {
    let sc = s();
    let e = EDGES.load(Relaxed);
    let n = if sc.fixed {
        while sc.pe < sc.fix_e.len() && sc.fix_e[sc.pe].at <= e {
            sc.pe += 1;
        }
        sc.fix_e.get(sc.pe).map_or(u64::MAX, |d| d.at)
    } else if sc.quiet {
        u64::MAX
    } else if sc.pol.pct > 0 {
        while sc.pct_next.last().map_or(false, |x| *x <= e) {
            sc.pct_next.pop();
        }
        sc.pct_next.last().copied().unwrap_or(u64::MAX)
    } else if sc.pol.gap > 0 {
        let g = sc.pol.gap as u64;
        // mixture: mostly geometric-like around gap, sometimes very short or long
        let r = next(&mut sc.rng);
        let base = match r % 8 {
            0 => g / 16,
            1 => g * 8,
            _ => g,
        };
        e + 1 + next(&mut sc.rng) % (2 * base + 1)
    } else {
        u64::MAX
    };
    NEXT_EDGE.store(n.min(EDGE_BUDGET.load(Relaxed)), Relaxed);
}

/// Called on every instrumented edge (hot).
#[inline(always)]
pub fn on_edge() {
    if !active() {
        return;
    }
    let e = EDGES.load(Relaxed) + 1;
    EDGES.store(e, Relaxed);
    if e >= NEXT_EDGE.load(Relaxed) {
        edge_slow(e);
    }
}

#[cold]
#[inline(never)]
fn edge_slow(e: u64) {
    if tid() < 0 {
        return;
    }
    if e >= EDGE_BUDGET.load(Relaxed) {
        crate::exec::verdict("hang", &format!("step budget of {} edges exhausted", e));
    }
    let sc = s();
    if NOPREEMPT.with(|n| n.get()) > 0 || (sc.quiet && !sc.fixed) {
        plan_next_edge();
        return;
    }
    let mask = sc.ready_mask();
    let cur = sc.cur;
    let mut to = cur;
    if sc.fixed {
        if sc.pe < sc.fix_e.len() && sc.fix_e[sc.pe].at == e {
            let t = sc.fix_e[sc.pe].tid as usize;
            if mask >> t & 1 == 1 {
                to = t;
            }
        }
    } else if sc.pol.pct > 0 {
        sc.pct_low -= 1;
        sc.th[cur].prio = sc.pct_low;
        to = sc.top_prio(mask);
    } else {
        let others = mask & !(1 << cur);
        if others != 0 {
            to = sc.pick_rand(others);
            let v = sc.pol.victims;
            if v >> to & 1 == 1 && next(&mut sc.rng) % 24 != 0 {
                let nv = others & !v;
                to = if nv != 0 { sc.pick_rand(nv) } else { cur };
            }
        }
    }
    if to != cur {
        sc.record(e, b'E', to);
        sc.preempts += 1;
        cnt(C::FaultPreempt);
    }
    plan_next_edge();
    if to != cur {
        sc.note_switch(Kind::Point, to);
        hand_off(to);
    }
}

fn hand_off(to: usize) {
    let sc = s();
    let me = sc.cur;
    if to == me {
        return;
    }
    sc.switches += 1;
    sc.cur = to;
    PARKS[to].0.store(1, Release);
    ip::raw_futex_wake(&PARKS[to].0);
    wait_token(me);
}

fn wait_token(me: usize) {
    while PARKS[me].0.swap(0, Acquire) == 0 {
        ip::raw_futex_wait(&PARKS[me].0, 0);
    }
}

fn reschedule(kind: Kind) {
    let sc = s();
    let to = sc.decide(kind);
    if to != sc.cur {
        sc.note_switch(kind, to);
        hand_off(to);
    }
}

pub fn yield_now() {
    reschedule(Kind::Yield);
}
pub fn point() {
    reschedule(Kind::Point);
}
/// A read that made progress does not count against the limit of decisions.
pub fn more_decisions() {
    s().max_decisions += 16;
}
pub fn sleep(ns: u64) {
    let sc = s();
    let me = sc.cur;
    let d = sc.now.saturating_add(ns);
    sc.th[me].st = St::Sleep { deadline: d };
    reschedule(Kind::Block);
}
pub fn block_forever() {
    let sc = s();
    let me = sc.cur;
    sc.th[me].st = St::Forever;
    reschedule(Kind::Block);
}
/// Wait until no other thread can run and no timer is pending.
pub fn drain() {
    let sc = s();
    let me = sc.cur;
    sc.th[me].st = St::Drain;
    reschedule(Kind::Block);
}

pub fn futex_wait(addr: usize, mask: u32, deadline: u64) -> i32 {
    let sc = s();
    let me = sc.cur;
    sc.fut_seq += 1;
    sc.th[me].fut_seq = sc.fut_seq;
    sc.th[me].reason = 0;
    sc.th[me].st = St::Fut { addr, mask, deadline };
    reschedule(Kind::Block);
    s().th[me].reason
}

pub fn futex_wake(addr: usize, n: u32, bits: u32) -> i32 {
    let sc = s();
    let mut woken = 0;
    while (woken as u32) < n {
        // waiters in arrival order
        let mut best = usize::MAX;
        let mut m = 0u64;
        for i in 0..sc.n {
            if let St::Fut { addr: a, mask, .. } = sc.th[i].st {
                if a == addr && mask & bits != 0 {
                    m |= 1 << i;
                    if best == usize::MAX || sc.th[i].fut_seq < sc.th[best].fut_seq {
                        best = i;
                    }
                }
            }
        }
        if best == usize::MAX {
            break;
        }
        if m.count_ones() > 1 {
            sc.decisions += 1;
            let idx = sc.decisions;
            let mut ch = best;
            if sc.fixed {
                while sc.pd < sc.fix_d.len() && sc.fix_d[sc.pd].at < idx {
                    sc.pd += 1;
                }
                if sc.pd < sc.fix_d.len() && sc.fix_d[sc.pd].at == idx {
                    let d = sc.fix_d[sc.pd];
                    sc.pd += 1;
                    if m >> d.tid & 1 == 1 {
                        ch = d.tid as usize;
                    }
                }
            } else if !sc.quiet && sc.pol.p_switch > 0 && next(&mut sc.rng) % 4 == 0 {
                ch = sc.pick_rand(m);
            }
            if ch != best {
                sc.record(idx, b'W', ch);
            }
            best = ch;
        }
        sc.th[best].st = St::Ready;
        sc.th[best].reason = 0;
        woken += 1;
    }
    if woken > 0 {
        reschedule(Kind::Wake);
    }
    woken
}

// ---- threads ----

/// Returns Err(errno) if the creation is to fail, Ok(tid) with a reserved slot otherwise.
pub fn thread_create_begin() -> Result<usize, i32> {
    let sc = s();
    let r = NEXT_ROLE.load(Relaxed);
    let role = match r {
        0 => Role::Main,
        1 => Role::Client,
        2 => Role::Pool,
        _ => Role::Sut,
    };
    if role == Role::Sut {
        let k = sc.spawn_seq;
        sc.spawn_seq += 1;
        if k < sc.spawn_fail_first || k >= sc.spawn_fail_all_from || sc.spawn_fail.contains(&k) {
            cnt(C::FaultSpawnRefused);
            return Err(libc::EAGAIN);
        }
    }
    // a fresh slot, or else one whose thread has ended
    let t = if sc.n < MAXT {
        sc.n += 1;
        sc.n - 1
    } else {
        match (0..sc.n).find(|&i| sc.th[i].st == St::Done) {
            Some(t) => t,
            None => crate::exec::verdict("harness", "too many threads"),
        }
    };
    sc.made[role as usize] += 1;
    sc.th[t].role = role;
    sc.th[t].st = St::Ready;
    sc.th[t].pthread = 0;
    if sc.pol.pct > 0 {
        let r = next(&mut sc.rng);
        sc.th[t].prio = (1 << 21) + (r % (1 << 20)) as u32;
    }
    PARKS[t].0.store(0, Relaxed);
    Ok(t)
}
pub fn thread_create_end(t: usize, pthread: usize) {
    s().th[t].pthread = pthread;
    reschedule(Kind::Spawn);
}
/// On the new thread: wait for the first turn.
pub fn thread_enter(t: usize) {
    TID.with(|x| x.set(t as i32));
    wait_token(t);
}
/// On the exiting thread, after all its Rust destructors.
pub fn thread_exit() {
    let sc = s();
    let me = sc.cur;
    sc.th[me].st = St::Done;
    for i in 0..sc.n {
        if sc.th[i].st == (St::Join { tid: me }) {
            sc.th[i].st = St::Ready;
        }
    }
    let to = sc.decide(Kind::Exit);
    sc.note_switch(Kind::Exit, to);
    TID.with(|x| x.set(-1));
    sc.switches += 1;
    sc.cur = to;
    PARKS[to].0.store(1, Release);
    ip::raw_futex_wake(&PARKS[to].0);
}
pub fn thread_join(pthread: usize) {
    let sc = s();
    for i in 0..sc.n {
        if sc.th[i].pthread == pthread && sc.th[i].st != St::Done {
            let me = sc.cur;
            sc.th[me].st = St::Join { tid: i };
            reschedule(Kind::Block);
            return;
        }
    }
}

#[allow(dead_code)]
pub fn run_in_sut_flag() -> u32 {
    shm().in_sut.load(Relaxed)
}
