//! libc symbols defined in the executable, so that std, rayon and the system
//! under test call the simulator instead of the kernel for everything that
//! could make an execution nondeterministic.
#![allow(clippy::missing_safety_doc)]
use crate::sched;
use libc::{c_int, c_long, c_void, size_t, timespec};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

pub fn raw_syscall6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
pub fn raw_futex_wait(a: &AtomicU32, v: u32) {
    raw_syscall6(libc::SYS_futex as usize, a as *const _ as usize, 128, v as usize, 0, 0, 0);
}
pub fn raw_futex_wake(a: &AtomicU32) {
    raw_syscall6(libc::SYS_futex as usize, a as *const _ as usize, 129, 1, 0, 0, 0);
}
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
fn ret(r: isize) -> c_long {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r as c_long
    }
}

macro_rules! real {
    ($name:literal, $ty:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const _) as usize;
            P.store(p, Relaxed);
        }
        std::mem::transmute::<usize, $ty>(p)
    }};
}

unsafe fn ts_ns(p: *const timespec) -> u64 {
    ((*p).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*p).tv_nsec as u64)
}

static RNG_CTR: AtomicU64 = AtomicU64::new(1);
fn fill_random(p: *mut u8, n: usize) {
    for i in 0..n {
        let x = sched::mix(RNG_CTR.fetch_add(1, Relaxed));
        unsafe { *p.add(i) = x as u8 }
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if sched::controlled() {
        if n == libc::SYS_futex {
            let op = b & 0x7f;
            match op {
                0 | 9 => {
                    if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                        set_errno(libc::EAGAIN);
                        return -1;
                    }
                    let mut dl = u64::MAX;
                    if d != 0 {
                        let t = ts_ns(d as *const timespec);
                        dl = if op == 0 { sched::now().saturating_add(t) } else { t };
                        // CLOCK_REALTIME deadlines
                        if op == 9 && b & 256 != 0 {
                            dl = t.saturating_sub(REAL_BASE);
                        }
                    }
                    let mask = if op == 9 { f as u32 } else { !0 };
                    let r = sched::futex_wait(a, mask, dl);
                    if r != 0 {
                        set_errno(r);
                        return -1;
                    }
                    return 0;
                }
                1 | 10 => {
                    let mask = if op == 10 { f as u32 } else { !0 };
                    return sched::futex_wake(a, c as u32, mask) as c_long;
                }
                _ => crate::exec::verdict("harness", "unsupported futex operation"),
            }
        }
        if n == libc::SYS_getrandom {
            fill_random(a as *mut u8, b);
            return b as c_long;
        }
    }
    ret(raw_syscall6(n as usize, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> isize {
    if sched::active() {
        fill_random(buf as *mut u8, len);
        return len as isize;
    }
    ret(raw_syscall6(libc::SYS_getrandom as usize, buf as usize, len, flags as usize, 0, 0, 0)) as isize
}

const REAL_BASE: u64 = 1_700_000_000_000_000_000;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut timespec) -> c_int {
    if sched::active() {
        let mut t = sched::now();
        if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
            t += REAL_BASE;
        }
        (*ts).tv_sec = (t / 1_000_000_000) as _;
        (*ts).tv_nsec = (t % 1_000_000_000) as _;
        return 0;
    }
    ret(raw_syscall6(libc::SYS_clock_gettime as usize, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sched::controlled() {
        sched::yield_now();
        return 0;
    }
    ret(raw_syscall6(libc::SYS_sched_yield as usize, 0, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if sched::controlled() {
        sched::sleep(ts_ns(req));
        return 0;
    }
    ret(raw_syscall6(libc::SYS_nanosleep as usize, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if sched::controlled() {
        let t = ts_ns(req);
        let d = if flags & 1 != 0 { t.saturating_sub(sched::now()) } else { t };
        sched::sleep(d);
        return 0;
    }
    let r = raw_syscall6(libc::SYS_clock_nanosleep as usize, clk as usize, flags as usize, req as usize, rem as usize, 0, 0);
    -r as c_int
}

pub static SIM_CPUS: AtomicU32 = AtomicU32::new(4);
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, sz: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if sched::active() {
        libc::memset(set as *mut c_void, 0, sz);
        for i in 0..SIM_CPUS.load(Relaxed) as usize {
            libc::CPU_SET(i, &mut *set);
        }
        return 0;
    }
    let r = ret(raw_syscall6(libc::SYS_sched_getaffinity as usize, pid as usize, sz, set as usize, 0, 0, 0));
    if r < 0 {
        -1
    } else {
        0
    }
}

struct StartArgs {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: usize,
}
static EXIT_KEY: AtomicU32 = AtomicU32::new(u32::MAX);
/// Behind the destructors of all other thread-specific data, which may free memory: they have run when the value has
/// been set again, which starts another round of them.
unsafe extern "C" fn on_thread_exit(v: *mut c_void) {
    if (v as usize) >> 16 < 2 {
        libc::pthread_setspecific(EXIT_KEY.load(Relaxed) as _, (v as usize + 0x10000) as *const c_void);
    } else {
        sched::thread_exit();
    }
}
pub fn init() {
    unsafe {
        let mut k = 0;
        libc::pthread_key_create(&mut k, Some(on_thread_exit));
        EXIT_KEY.store(k as u32, Relaxed);
        let mut t: timespec = std::mem::zeroed();
        clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
    }
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let a = std::ptr::read(p as *mut StartArgs);
        libc::free(p);
        libc::pthread_setspecific(EXIT_KEY.load(Relaxed) as _, (a.tid + 1) as *const c_void);
        sched::thread_enter(a.tid);
        (a.f)(a.arg)
    }
}

type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let real = real!("pthread_create", CreateFn);
    if !sched::controlled() {
        return real(t, attr, f, arg);
    }
    let tid = match sched::thread_create_begin() {
        Ok(t) => t,
        Err(e) => return e,
    };
    let p = libc::malloc(std::mem::size_of::<StartArgs>()) as *mut StartArgs;
    std::ptr::write(p, StartArgs { f, arg, tid });
    let r = real(t, attr, trampoline, p as *mut c_void);
    if r != 0 {
        crate::exec::verdict("harness", "the real pthread_create failed");
    }
    sched::thread_create_end(tid, *t as usize);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    if sched::controlled() {
        sched::thread_join(t as usize);
    }
    let real = real!("pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int);
    real(t, out)
}

// ---- coverage callbacks (preemption points, step counter, coverage map) ----

static N_GUARDS: AtomicU32 = AtomicU32::new(0);
pub fn n_guards() -> u32 {
    N_GUARDS.load(Relaxed)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        *a = N_GUARDS.fetch_add(1, Relaxed) + 1;
        a = a.add(1);
    }
}
static PCS: AtomicU64 = AtomicU64::new(0);
/// Address of the code behind guard `i` (from 1), relative to this function.
pub fn pc_of(i: u32) -> usize {
    unsafe { *((PCS.load(Relaxed) as *const usize).add((i as usize - 1) * 2)) }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(a: *const usize, _b: *const usize) {
    if PCS.load(Relaxed) == 0 {
        PCS.store(a as u64, Relaxed);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !sched::active() {
        return;
    }
    crate::exec::cov_hit(*g);
    sched::on_edge();
}
