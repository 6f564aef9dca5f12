//! Runs: one forked child process per simulated execution, shared-memory reporting,
//! minimisation, replay files.
use crate::sched::{self, Dev, Policy, Sched, MAX_DEVS};
use crate::tape::{Tape, MAX_TAPE};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, Ordering::*};
use std::time::Instant;

macro_rules! counters {
    ($($name:ident = $s:literal),* $(,)?) => {
        #[derive(Clone, Copy, Debug)]
        #[repr(usize)]
        #[allow(dead_code)]
        pub enum C { $($name),*, Last }
        pub const CNAMES: &[&str] = &[$($s),*];
    };
}
counters! {
    FaultPreempt = "fault:thread preempted inside decoder code",
    FaultSpuriousWake = "fault:spurious futex wake-up",
    FaultEarlyTimer = "fault:timer expires while others could still run",
    FaultSpawnRefused = "fault:thread creation refused (EAGAIN)",
    FaultShortRead = "fault:short read",
    FaultEintr = "fault:interrupted read (EINTR)",
    FaultStall = "fault:stalled read (simulated sleep)",
    FaultIoTransient = "fault:I/O error, transient",
    FaultIoPersist = "fault:I/O error, persistent",
    FaultEof = "fault:premature end of data",
    FaultPanic = "fault:source panics",
    FaultBlock = "fault:source blocks for ever",
    FaultBitFlip = "fault:stored bits flipped",
    FaultTruncate = "fault:stored data truncated",
    FaultZero = "fault:stored range zeroed or filled",
    FaultDup = "fault:stored range duplicated",
    FaultDelete = "fault:stored range lost",
    FaultSplice = "fault:data spliced from another image",
    FaultHeader = "fault:header field corrupted",
    FaultSegLoss = "fault:segment lost",
    FaultSegDup = "fault:segment duplicated",
    FaultSegSwap = "fault:segments reordered",
    FaultNumbering = "fault:chunk numbering corrupted",
    FaultIntervalLoss = "fault:restart interval lost",
    FaultIntervalDup = "fault:restart interval duplicated",
    FaultIntervalSwap = "fault:restart intervals exchanged",
    FaultIntervalBits = "fault:bits damaged inside a restart interval",
    FaultScanLoss = "fault:scan lost",
    FaultCompLoss = "fault:all scans of a component lost",
    FaultNoiseFill = "fault:fill bytes inserted",
    FaultNoiseSeg = "fault:unknown segment inserted",
    FaultNoiseCom = "fault:comment inserted",
    FaultNoiseBytes = "fault:stray bytes inserted",
    FaultNoiseRst = "fault:stray final restart marker",
    FaultHostileSize = "fault:hostile declared dimensions",
    FaultUnsupported = "fault:headers changed to those of an unsupported feature",
    FaultHdrFrame = "fault:frame header field made invalid",
    FaultHdrScan = "fault:scan header field made invalid",
    FaultHdrTable = "fault:table or application header made invalid",
    FaultHdrOrder = "fault:segments missing or out of place",
    FaultHdrLength = "fault:segment length below its own size",
    FaultCode = "fault:wrong restart marker or unassigned code in the data",
    FaultResend = "fault:complete scan sent once more",
    FaultGrow = "fault:part of the stream repeated or enlarged many times",
    FaultDropped = "fault:decoder dropped half way",
    OpReadInfo = "op:read_info",
    OpScale = "op:scale",
    OpDecode = "op:decode",
    OpAccessor = "op:accessor",
    OpSetter = "op:setter",
    ResOk = "result:ok",
    ResIo = "result:io error",
    ResFormat = "result:format error",
    ResUnsupported = "result:unsupported error",
    ResPanic = "result:panic",
    ImgBaseline = "image:baseline (SOF0)",
    ImgExtended = "image:extended sequential (SOF1)",
    ImgProgressive = "image:progressive (SOF2)",
    ImgLossless = "image:lossless (SOF3)",
    ImgRestart = "image:with restart intervals",
    ImgNonInterleaved = "image:with non-interleaved scans",
    ImgSubsampled = "image:with subsampled components",
    ImgParallel = "image:large enough for worker threads",
    ImgScaled = "image:decoded at reduced scale",
    ImgMjpeg = "image:default (MJPEG) Huffman tables",
    ImgRefTest = "image:hostile or foreign bytes",
    ImgTall = "image:more than 65000 lines or columns",
    ProbeSutThread = "probe:decoder started an OS thread",
    ProbePoolUsed = "probe:decode ran with a thread pool",
    ProbeInsidePool = "probe:decode called from a pool thread",
    ProbeOwnPool = "probe:decode called from a task of another pool",
    ProbeRoam = "probe:decoder moved to another thread for a call",
    ProbeLeftAgain = "probe:decoded again to see whether what was left grows",
    ProbeSlowLeak = "probe:the same decoded again and again, with what stays allocated",
    ProbeConcurrent = "probe:several decoders in flight at once",
    ProbeCrowd = "probe:very many decoders came first or stayed half used",
    ProbeDamageDetected = "probe:damage reported as error",
    ProbeDamageSurvived = "probe:damaged image decoded",
    ProbeDamageHarmless = "probe:damaged image decoded to undamaged pixels",
    ProbeGrowth = "probe:cost of 2 and 17 times the stream compared",
    ProbeRecoded = "probe:same coefficients coded in another way, compared to the bit",
    ProbeRetry = "probe:call repeated after a failure",
    ProbeSecondImage = "probe:second image decoded from the same stream",
    ProbeLimitRefused = "probe:refused by the buffer limit",
    ProbeLimitAllowed = "probe:allowed by the buffer limit",
    ProbeIccReturned = "probe:ICC profile returned",
    ProbeIccRefused = "probe:ICC profile withheld",
    ProbeModelCompared = "probe:pixels compared with the reference model",
    ProbeModelExact = "probe:pixels compared exactly",
    ProbePartial = "probe:partially received image rendered",
    ProbeGuarded = "probe:run with guard pages around decoder memory",
    ProbeFaultInEcs = "probe:source fault inside entropy-coded data",
    ProbeFaultInHdr = "probe:source fault inside a header segment",
    ProbeSoleErr = "probe:failing source reported with its own error",
    SimNs = "sim:nanoseconds",
    Switches = "sim:context switches",
    Decisions = "sim:scheduling decisions",
    Edges = "sim:edges executed",
    BytesFed = "sim:bytes delivered",
    SutCalls = "sim:calls into the decoder",
    Leaked = "probe:bytes still allocated at the end of a run (allowance in DESIGN.md)",
    Known = "known findings hit",
}
pub const NC: usize = C::Last as usize;

#[repr(C)]
pub struct Shm {
    pub status: AtomicU32,
    pub in_sut: AtomicU32,
    pub nontrivial: AtomicU32,
    pub class_len: AtomicU32,
    pub class: [AtomicU8; 256],
    pub msg_len: AtomicU32,
    pub msg: [AtomicU8; 4096],
    pub trace_len: AtomicU32,
    pub trace: [AtomicU8; 32768],
    pub tape_len: AtomicU32,
    pub tape: [AtomicU32; MAX_TAPE],
    pub devs_len: AtomicU32,
    pub devs_over: AtomicU32,
    pub devs: std::cell::UnsafeCell<[Dev; MAX_DEVS]>,
    pub hash: AtomicU64,
    pub case_hash: AtomicU64,
    pub ev_hash: AtomicU64,
    pub state_hash: AtomicU64,
    pub counters: [AtomicU64; NC],
    pub cov: [AtomicU8; 1 << 16],
    pub known: [AtomicU32; 64],
}

static mut SHM: *mut Shm = std::ptr::null_mut();
#[inline]
pub fn shm() -> &'static Shm {
    unsafe { &*SHM }
}
pub fn init_shm() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p as isize != -1);
        SHM = p as *mut Shm;
    }
}
#[inline]
pub fn cnt(c: C) {
    add(c, 1)
}
#[inline]
pub fn add(c: C, n: u64) {
    let a = &shm().counters[c as usize];
    a.store(a.load(Relaxed) + n, Relaxed);
}
pub fn get(c: C) -> u64 {
    shm().counters[c as usize].load(Relaxed)
}
#[inline(always)]
pub fn cov_hit(g: u32) {
    shm().cov[(g & 0xffff) as usize].store(1, Relaxed);
}
pub fn record_dev(d: Dev) {
    let n = shm().devs_len.load(Relaxed) as usize;
    if n < MAX_DEVS {
        unsafe { (*shm().devs.get())[n] = d };
        shm().devs_len.store(n as u32 + 1, Relaxed);
    } else {
        shm().devs_over.store(1, Relaxed);
    }
}
pub fn nontrivial() {
    shm().nontrivial.store(1, Relaxed);
}
/// Fold an observable event of the run into its event hash (used for determinism checks
/// and for counting distinct executions).
pub fn event(x: u64) {
    let h = shm().ev_hash.load(Relaxed);
    shm().ev_hash.store(sched::mix(h ^ x), Relaxed);
}
pub fn event_bytes(b: &[u8]) {
    event(hash_bytes(b));
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h
}
fn put_bytes(len: &AtomicU32, buf: &[AtomicU8], s: &[u8]) {
    let n = s.len().min(buf.len());
    for i in 0..n {
        buf[i].store(s[i], Relaxed);
    }
    len.store(n as u32, Relaxed);
}
fn get_bytes(len: &AtomicU32, buf: &[AtomicU8]) -> String {
    let n = (len.load(Relaxed) as usize).min(buf.len());
    let v: Vec<u8> = (0..n).map(|i| buf[i].load(Relaxed)).collect();
    String::from_utf8_lossy(&v).into_owned()
}
/// Append a line to the readable trace of the run.
pub fn trace(s: &str) {
    let sh = shm();
    let mut n = sh.trace_len.load(Relaxed) as usize;
    for &b in s.as_bytes().iter().chain(b"\n") {
        if n >= sh.trace.len() {
            break;
        }
        sh.trace[n].store(b, Relaxed);
        n += 1;
    }
    sh.trace_len.store(n as u32, Relaxed);
}
#[macro_export]
macro_rules! tr { ($($a:tt)*) => { $crate::exec::trace(&format!($($a)*)) } }

/// End the run here. class "harness" is an error of the harness, anything else a violation.
pub fn verdict(class: &str, msg: &str) -> ! {
    let sh = shm();
    put_bytes(&sh.class_len, &sh.class, class.as_bytes());
    put_bytes(&sh.msg_len, &sh.msg, msg.as_bytes());
    sh.status.store(if class == "harness" { 3 } else { 2 }, SeqCst);
    unsafe { libc::_exit(0) }
}
pub fn discard() -> ! {
    shm().status.store(4, SeqCst);
    unsafe { libc::_exit(0) }
}
fn finish_ok() -> ! {
    shm().status.store(1, SeqCst);
    unsafe { libc::_exit(0) }
}

/// Known findings: (property, key). A violation with a listed key is counted, not raised.
pub static mut KNOWN: Vec<(String, String)> = Vec::new();
#[allow(static_mut_refs)]
pub fn violation(class: &str, msg: &str) {
    let prop = unsafe { &CUR_PROP };
    unsafe {
        for (i, (p, k)) in KNOWN.iter().enumerate() {
            if p == prop && k == class {
                cnt(C::Known);
                let a = &shm().known[i.min(63)];
                a.store(a.load(Relaxed) + 1, Relaxed);
                return;
            }
        }
    }
    verdict(class, msg)
}
pub static mut CUR_PROP: String = String::new();

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Violation,
    Harness,
    Discard,
}

#[derive(Clone)]
pub struct Out {
    pub end: End,
    pub class: String,
    pub msg: String,
    pub tape: Vec<u32>,
    pub devs: Vec<Dev>,
    pub devs_over: bool,
    pub hash: u64,
    pub ev_hash: u64,
    pub state_hash: u64,
    pub nontrivial: bool,
}

pub type Scenario = fn(&mut Ctx);

pub struct Ctx {
    pub t: Tape,
    pub sched: Sched,
    pub seed: u64,
    pub thorough: bool,
    started: bool,
}
impl Ctx {
    /// Draws the scheduling policy and starts the simulation. Must be called once, after all
    /// draws that decide the workload.
    pub fn start(&mut self, edge_budget: u64) {
        assert!(!self.started);
        self.started = true;
        sched::start(&self.sched, edge_budget);
    }
}

pub fn policy_for(seed: u64, style: u32) -> Policy {
    let mut r = crate::tape::Rng::new(seed ^ 0x5C4ED);
    let mut p = Policy::SEQ;
    p.seed = seed;
    if style == 0 {
        return p;
    }
    match r.below(8) {
        0 => {}
        1 => p.p_switch = 100,
        2 => p.p_switch = 500,
        3 => {
            p.p_switch = 200;
            p.gap = 20_000;
        }
        4 => {
            p.p_switch = 300;
            p.gap = 2_000;
        }
        5 => {
            p.p_switch = 300;
            p.gap = 300;
        }
        6 => {
            p.p_switch = 300;
            p.gap = 60;
        }
        _ => p.pct = 1 + r.below(6),
    }
    if r.chance(1, 3) {
        p.victims = r.u64() & r.u64();
        if r.chance(1, 3) {
            p.victims |= 1; // the main thread itself is slow
        }
    }
    if r.chance(1, 3) {
        p.p_spur = [5, 50, 400][r.below(3) as usize];
    }
    if r.chance(1, 3) {
        p.p_timer = [20, 200][r.below(2) as usize];
    }
    p
}

pub fn run_child(scn: Scenario, prop: &str, seed: u64, tape: Option<&[u32]>, sched: &Sched, thorough: bool) -> Out {
    let sh = shm();
    sh.status.store(0, SeqCst);
    for a in [&sh.in_sut, &sh.nontrivial, &sh.class_len, &sh.msg_len, &sh.trace_len, &sh.tape_len, &sh.devs_len, &sh.devs_over] {
        a.store(0, Relaxed);
    }
    sh.hash.store(0, Relaxed);
    sh.ev_hash.store(0, Relaxed);
    sh.state_hash.store(0, Relaxed);
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        panic!("fork failed");
    }
    if pid == 0 {
        child(scn, prop, seed, tape, sched, thorough);
    }
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
    }
    let status = sh.status.load(SeqCst);
    let mut class = get_bytes(&sh.class_len, &sh.class);
    let mut msg = get_bytes(&sh.msg_len, &sh.msg);
    let end = match status {
        1 => End::Ok,
        2 => End::Violation,
        3 => End::Harness,
        4 => End::Discard,
        _ => {
            if libc::WIFSIGNALED(st) {
                let sig = libc::WTERMSIG(st);
                let in_sut = sh.in_sut.load(Relaxed) > 0;
                let name = match sig {
                    libc::SIGSEGV => "crash-segv",
                    libc::SIGBUS => "crash-bus",
                    libc::SIGABRT => "crash-abort",
                    libc::SIGILL => "crash-ill",
                    libc::SIGFPE => "crash-fpe",
                    libc::SIGVTALRM => "hang",
                    libc::SIGALRM => "hang-wall",
                    _ => "killed",
                };
                msg = format!("child died with signal {} while {} {}", sig, if in_sut { "inside the decoder;" } else { "outside the decoder;" }, msg);
                if sig == libc::SIGKILL {
                    class = "harness".into();
                    End::Harness
                } else if sig != libc::SIGALRM && (in_sut || sig != libc::SIGVTALRM) {
                    // outside the decoder: memory it damaged, or a worker it left behind
                    class = if in_sut { name.into() } else { format!("{}-outside", name) };
                    End::Violation
                } else {
                    class = format!("harness-{}", name);
                    End::Harness
                }
            } else {
                class = "harness-exit".into();
                msg = format!("child exited with {} and no verdict; {}", libc::WEXITSTATUS(st), msg);
                End::Harness
            }
        }
    };
    let n = sh.tape_len.load(Relaxed) as usize;
    let tape = (0..n).map(|i| sh.tape[i].load(Relaxed)).collect();
    let nd = sh.devs_len.load(Relaxed) as usize;
    Out {
        end,
        class,
        msg,
        tape,
        devs: unsafe { (&(*sh.devs.get()))[..nd].to_vec() },
        devs_over: sh.devs_over.load(Relaxed) != 0,
        hash: sh.hash.load(Relaxed),
        ev_hash: sh.ev_hash.load(Relaxed),
        state_hash: sh.state_hash.load(Relaxed),
        nontrivial: sh.nontrivial.load(Relaxed) != 0,
    }
}

fn child(scn: Scenario, prop: &str, seed: u64, tape: Option<&[u32]>, sched: &Sched, thorough: bool) -> ! {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: 40, tv_usec: 0 },
        };
        setitimer(1, &it, std::ptr::null_mut()); // ITIMER_VIRTUAL
        libc::alarm(400);
        CUR_PROP = prop.to_string();
    }
    let mut ctx = Ctx { t: Tape::new(seed, tape.map(|t| t.to_vec())), sched: sched.clone(), seed, thorough, started: false };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scn(&mut ctx)));
    if let Err(e) = r {
        let m = crate::subject::panic_text(&e);
        verdict("harness", &format!("harness panicked: {} {}", m, crate::subject::last_panic()));
    }
    if ctx.started {
        let s = sched::summary();
        add(C::SimNs, s.now);
        add(C::Switches, s.switches);
        add(C::Decisions, s.decisions);
        add(C::Edges, s.edges);
        shm().hash.store(s.hash, Relaxed);
        event(s.hash);
        event(s.edges);
        event(s.decisions);
        if s.switches > 0 {
            nontrivial();
        }
    }
    finish_ok()
}
extern "C" {
    fn setitimer(which: libc::c_int, new: *const libc::itimerval, old: *mut libc::itimerval) -> libc::c_int;
}

// ---- minimisation ----

pub struct Min {
    pub tape: Vec<u32>,
    pub sched: Sched,
    pub out: Out,
    pub tries: usize,
}

fn strip(t: &mut Vec<u32>) {
    while t.last() == Some(&0) {
        t.pop();
    }
}

pub fn minimise(scn: Scenario, prop: &str, seed: u64, first: &Out, sched: &Sched, thorough: bool, secs: f64) -> Min {
    let t0 = Instant::now();
    let mut tries = 0;
    let class = first.class.clone();
    let mut best_sched = sched.clone();
    let mut best = first.clone();
    let mut attempt = |tape: &[u32], sc: &Sched, tries: &mut usize| -> Option<Out> {
        *tries += 1;
        let o = run_child(scn, prop, seed, Some(tape), sc, thorough);
        if o.end == End::Violation && o.class == class {
            Some(o)
        } else {
            None
        }
    };
    // is the schedule needed at all?
    if let Some(o) = attempt(&best.tape.clone(), &Sched::Fixed(vec![]), &mut tries) {
        best = o;
        best_sched = Sched::Fixed(vec![]);
    }
    // shrink the tape
    let mut tape = best.tape.clone();
    strip(&mut tape);
    let budget = |t0: &Instant, f: f64| t0.elapsed().as_secs_f64() < secs * f;
    let mut improved = true;
    while improved && budget(&t0, 0.75) {
        improved = false;
        // delete spans, then zero spans
        for mode in 0..2 {
            let mut len = (tape.len() / 2).max(1).next_power_of_two();
            while len >= 1 {
                let mut i = tape.len();
                while i > 0 && budget(&t0, 0.75) {
                    let a = i.saturating_sub(len);
                    let mut c = tape.clone();
                    if mode == 0 {
                        c.drain(a..i);
                    } else {
                        if c[a..i].iter().all(|x| *x == 0) {
                            i = a;
                            continue;
                        }
                        for x in &mut c[a..i] {
                            *x = 0;
                        }
                    }
                    strip(&mut c);
                    if c != tape {
                        if let Some(o) = attempt(&c, &best_sched, &mut tries) {
                            let mut nt = o.tape.clone();
                            strip(&mut nt);
                            // keep what was really consumed
                            tape = if nt.len() <= c.len() { nt } else { c };
                            best = o;
                            improved = true;
                            i = i.min(tape.len());
                            if mode == 1 {
                                i = a.min(tape.len());
                            }
                            continue;
                        }
                    }
                    i = a;
                }
                len /= 2;
            }
        }
        // shrink values
        let mut i = 0;
        while i < tape.len() && budget(&t0, 0.75) {
            let v = tape[i];
            let mut cands = vec![0, v / 16, v / 2, v.saturating_sub(1)];
            cands.dedup();
            for c in cands {
                if c < v && i < tape.len() {
                    let mut t = tape.clone();
                    t[i] = c;
                    if let Some(o) = attempt(&t, &best_sched, &mut tries) {
                        strip(&mut t);
                        tape = t;
                        best = o;
                        improved = true;
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    // make the schedule explicit and shrink it
    if !matches!(&best_sched, Sched::Fixed(v) if v.is_empty()) {
        if let Some(o) = attempt(&tape, &best_sched, &mut tries) {
            let over = o.devs_over;
            best = o;
            if !over {
                let mut devs = best.devs.clone();
                if let Some(o) = attempt(&tape, &Sched::Fixed(devs.clone()), &mut tries) {
                    best = o;
                    best_sched = Sched::Fixed(devs.clone());
                    let mut len = devs.len().next_power_of_two();
                    while len >= 1 {
                        let mut i = 0;
                        while i < devs.len() && budget(&t0, 1.0) {
                            let mut d = devs.clone();
                            d.drain(i..(i + len).min(devs.len()));
                            if let Some(o) = attempt(&tape, &Sched::Fixed(d.clone()), &mut tries) {
                                best = o;
                                devs = d;
                                best_sched = Sched::Fixed(devs.clone());
                            } else {
                                i += len;
                            }
                        }
                        len /= 2;
                    }
                }
            }
        }
    }
    // final run, to have the trace of exactly this execution in shared memory
    let o = run_child(scn, prop, seed, Some(&tape), &best_sched, thorough);
    if o.end == End::Violation && o.class == class {
        best = o;
    }
    Min { tape, sched: best_sched, out: best, tries }
}

pub fn sched_to_string(s: &Sched) -> String {
    match s {
        Sched::Policy(p) => format!(
            "policy {} {} {} {} {} {} {}",
            p.seed, p.p_switch, p.gap, p.victims, p.p_spur, p.p_timer, p.pct
        ),
        Sched::Fixed(d) => {
            let mut o = "fixed".to_string();
            for x in d {
                write!(o, " {}:{}:{}", x.kind as char, x.at, x.tid).unwrap();
            }
            o
        }
    }
}
pub fn sched_from_string(s: &str) -> Sched {
    let mut it = s.split_whitespace();
    match it.next() {
        Some("policy") => {
            let v: Vec<u64> = it.map(|x| x.parse().unwrap()).collect();
            Sched::Policy(Policy { seed: v[0], p_switch: v[1] as u32, gap: v[2] as u32, victims: v[3], p_spur: v[4] as u32, p_timer: v[5] as u32, pct: v[6] as u32 })
        }
        Some("fixed") => Sched::Fixed(
            it.map(|x| {
                let p: Vec<&str> = x.split(':').collect();
                Dev { kind: p[0].as_bytes()[0], at: p[1].parse().unwrap(), tid: p[2].parse().unwrap() }
            })
            .collect(),
        ),
        _ => panic!("bad schedule"),
    }
}

pub fn write_replay(path: &str, prop: &str, config: &str, seed: u64, thorough: bool, m: &Min) {
    let mut o = String::new();
    writeln!(o, "jdsim-replay 1").unwrap();
    writeln!(o, "property {}", prop).unwrap();
    writeln!(o, "config {}", config).unwrap();
    writeln!(o, "seed {}", seed).unwrap();
    writeln!(o, "thorough {}", thorough as u32).unwrap();
    writeln!(o, "class {}", m.out.class).unwrap();
    let t: Vec<String> = m.tape.iter().map(|x| x.to_string()).collect();
    writeln!(o, "tape {}", t.join(" ")).unwrap();
    writeln!(o, "sched {}", sched_to_string(&m.sched)).unwrap();
    writeln!(o, "message {}", m.out.msg.replace('\n', " | ")).unwrap();
    writeln!(o, "trace").unwrap();
    o.push_str(&get_bytes(&shm().trace_len, &shm().trace));
    std::fs::write(path, o).unwrap();
}

pub fn last_trace() -> String {
    get_bytes(&shm().trace_len, &shm().trace)
}

/// Run a replay file; prints what happened. 1 if the violation comes back, 0 if not.
pub fn replay(path: &str, find: &dyn Fn(&str) -> Scenario) -> i32 {
    let txt = std::fs::read_to_string(path).expect("replay file");
    let mut f: BTreeMap<&str, &str> = BTreeMap::new();
    for l in txt.lines() {
        if l == "trace" {
            break;
        }
        if let Some((k, v)) = l.split_once(' ') {
            f.insert(k, v);
        } else {
            f.insert(l, "");
        }
    }
    let prop = f["property"];
    let tape: Vec<u32> = f.get("tape").unwrap_or(&"").split_whitespace().map(|x| x.parse().unwrap()).collect();
    let sch = sched_from_string(f["sched"]);
    let seed: u64 = f["seed"].parse().unwrap();
    let thorough = f["thorough"] == "1";
    let o = run_child(find(prop), prop, seed, Some(&tape), &sch, thorough);
    println!("{}", last_trace().trim_end());
    match o.end {
        End::Violation => {
            println!("REPRODUCED class={} hash={:016x} events={:016x}: {}", o.class, o.hash, o.ev_hash, o.msg);
            if o.class != f["class"] {
                println!("(recorded class was {})", f["class"]);
            }
            1
        }
        End::Ok | End::Discard => {
            println!("NOT REPRODUCED: the run ended {:?}", o.end);
            0
        }
        End::Harness => {
            println!("HARNESS ERROR {}: {}", o.class, o.msg);
            2
        }
    }
}

// ---- batch runner ----

pub struct Batch {
    pub prop: String,
    pub config: String,
    pub base: u64,
    pub start: u64,
    pub step: u64,
    pub runs: u64,
    pub secs: f64,
    pub thorough: bool,
    pub out_dir: String,
    pub tag: String,
    pub max_violations: usize,
    pub sched_style: u32,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn run_seed(base: u64, i: u64) -> u64 {
    sched::mix(base.wrapping_mul(0x1000003) ^ sched::mix(i))
}

pub fn batch(b: &Batch, scn: Scenario) -> i32 {
    let t0 = Instant::now();
    let mut done = 0u64;
    let mut discarded = 0u64;
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut ils: HashSet<u64> = HashSet::new();
    let mut violations: Vec<String> = vec![];
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut harness_err: Option<String> = None;
    let mut samples: Vec<String> = vec![];
    let mut i = b.start;
    let mut ev_all = 0u64;
    let mut states: Vec<u8> = vec![];
    let (mut repeated, mut differed) = (0u64, 0u64);
    while done < b.runs && t0.elapsed().as_secs_f64() < b.secs {
        let seed = run_seed(b.base, i);
        let sch = Sched::Policy(policy_for(seed, b.sched_style));
        let o = run_child(scn, &b.prop, seed, None, &sch, b.thorough);
        i += b.step;
        done += 1;
        ev_all = sched::mix(ev_all ^ o.ev_hash);
        match o.end {
            End::Ok => {
                if done % 64 == 1 {
                    // the same seed gives the same execution
                    let keep: Vec<u64> = shm().counters.iter().map(|c| c.load(Relaxed)).collect();
                    let tr = last_trace();
                    let p = run_child(scn, &b.prop, seed, None, &sch, b.thorough);
                    repeated += 1;
                    if (&p.end, p.hash, p.ev_hash, p.state_hash, &p.tape) != (&o.end, o.hash, o.ev_hash, o.state_hash, &o.tape) || last_trace() != tr {
                        differed += 1;
                        eprintln!(
                            "[{} {}] seed {} gives two different executions: {:?} {:?}, schedules {:x} {:x}, events {:x} {:x}, states {:x} {:x}, choices equal: {}\n{}---\n{}",
                            b.prop, b.config, seed, o.end, p.end, o.hash, p.hash, o.ev_hash, p.ev_hash, o.state_hash, p.state_hash, o.tape == p.tape, tr, last_trace()
                        );
                    }
                    shm().counters.iter().zip(keep).for_each(|(c, v)| c.store(v, Relaxed));
                }
                let mut h = 0u64;
                for x in &o.tape {
                    h = sched::mix(h ^ *x as u64);
                }
                let h = sched::mix(h ^ o.hash);
                distinct.insert(h);
                if o.nontrivial {
                    nontrivial.insert(h);
                }
                ils.insert(o.hash);
                if o.state_hash != 0 {
                    states.extend((i - b.step).to_le_bytes());
                    states.extend(o.state_hash.to_le_bytes());
                }
                if samples.len() < 3 && o.nontrivial && done > samples.len() as u64 * 50 {
                    let tr = last_trace();
                    let tr: String = tr.chars().take(1500).collect();
                    samples.push(format!("seed {} (index {}): {}", seed, i - b.step, tr));
                }
            }
            End::Discard => discarded += 1,
            End::Harness => {
                harness_err = Some(format!("seed {}: {}: {}\n{}", seed, o.class, o.msg, last_trace()));
                let _ = std::fs::write(
                    format!("{}/harness-{}-{}.txt", b.out_dir, b.prop, b.tag),
                    harness_err.as_ref().unwrap(),
                );
                break;
            }
            End::Violation => {
                let n = classes.entry(o.class.clone()).or_insert(0);
                *n += 1;
                if *n == 1 {
                    eprintln!("[{} {}] seed {}: violation {}: {}", b.prop, b.config, seed, o.class, o.msg);
                    let m = minimise(scn, &b.prop, seed, &o, &sch, b.thorough, 25.0);
                    let path = format!("{}/{}-{}-{}-{}.replay", b.out_dir, b.prop, b.config, o.class.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), seed);
                    write_replay(&path, &b.prop, &b.config, seed, b.thorough, &m);
                    eprintln!("[{} {}] minimised to {} choices, schedule {} ({} tries): {}", b.prop, b.config, m.tape.len(), match &m.sched { Sched::Fixed(v) => format!("with {} deviations", v.len()), _ => "by seed".into() }, m.tries, path);
                    violations.push(path);
                }
                if violations.len() >= b.max_violations || classes.values().sum::<u64>() > 40 {
                    break;
                }
            }
        }
    }
    let mut o = String::new();
    write!(o, "{{\"runs\":{},\"discarded\":{},\"distinct\":{},\"nontrivial\":{},\"interleavings\":{},\"wall\":{:.3},\"events\":{},\"guards\":{},\"repeated\":{},\"differed\":{},",
        done, discarded, distinct.len(), nontrivial.len(), ils.len(), t0.elapsed().as_secs_f64(), ev_all, crate::interpose::n_guards(), repeated, differed).unwrap();
    let covn: Vec<String> = (0..shm().cov.len()).filter(|&g| shm().cov[g].load(Relaxed) != 0).map(|g| g.to_string()).collect();
    write!(o, "\"cov\":[{}],", covn.join(",")).unwrap();
    let cs: Vec<String> = (0..NC).map(|k| format!("{}:{}", jstr(CNAMES[k]), shm().counters[k].load(Relaxed))).collect();
    write!(o, "\"counters\":{{{}}},", cs.join(",")).unwrap();
    let vs: Vec<String> = violations.iter().map(|v| jstr(v)).collect();
    write!(o, "\"violations\":[{}],", vs.join(",")).unwrap();
    let cl: Vec<String> = classes.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    write!(o, "\"classes\":{{{}}},", cl.join(",")).unwrap();
    let sm: Vec<String> = samples.iter().map(|v| jstr(v)).collect();
    write!(o, "\"samples\":[{}],", sm.join(",")).unwrap();
    #[allow(static_mut_refs)]
    let kn: Vec<String> = unsafe { KNOWN.iter().enumerate().map(|(i, (p, k))| format!("[{},{},{}]", jstr(p), jstr(k), shm().known[i.min(63)].load(Relaxed))).collect() };
    write!(o, "\"known\":[{}],", kn.join(",")).unwrap();
    write!(o, "\"harness_error\":{}}}", harness_err.as_ref().map_or("null".to_string(), |s| jstr(s))).unwrap();
    let dump = |what: &str, v: Vec<u8>| std::fs::write(format!("{}/{}-{}-{}.bin", b.out_dir, what, b.prop, b.tag), v).unwrap();
    dump("nt", nontrivial.iter().flat_map(|x| x.to_le_bytes()).collect());
    dump("il", ils.iter().flat_map(|x| x.to_le_bytes()).collect());
    dump("st", states);
    std::fs::write(format!("{}/stats-{}-{}.json", b.out_dir, b.prop, b.tag), o).unwrap();
    if let Some(h) = harness_err {
        eprintln!("HARNESS ERROR {}", h);
        return 2;
    }
    if violations.is_empty() {
        0
    } else {
        1
    }
}
