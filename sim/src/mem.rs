//! Simulated allocator: accounts for the memory the system under test owns,
//! enforces a budget, fills fresh and freed memory with junk, and can put every block
//! at the end (or the start) of its own pages so that any access outside it faults.
use crate::sched;
use std::alloc::{GlobalAlloc, Layout};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::*};

pub struct Mem;

#[global_allocator]
static GLOBAL: Mem = Mem;

#[repr(C, packed)]
#[derive(Clone, Copy)]
struct Hdr {
    magic: u32,
    flags: u32,
    size: u64,
    base: u64,
    maplen: u64,
}
const HDR: usize = 32;
const MAGIC: u32 = 0xA110_C8ED;
const FREED: u32 = 0xDEAD_F4EE;

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static MAX_SINGLE: AtomicU64 = AtomicU64::new(0);
pub static TOTAL: AtomicU64 = AtomicU64::new(0);
/// allocated by threads of thread pools outside of calls into the system under test
pub static POOL_TOTAL: AtomicU64 = AtomicU64::new(0);
pub static BUDGET: AtomicI64 = AtomicI64::new(i64::MAX);
pub static JUNK: AtomicBool = AtomicBool::new(false);
/// 0 off, 1 guard after, 2 guard before
pub static GUARD: AtomicU32 = AtomicU32::new(0);
pub static GUARDED: AtomicU64 = AtomicU64::new(0);

thread_local! {
    /// >0: this (client or main) thread is inside a call into the system under test
    static IN_SUT: Cell<u32> = const { Cell::new(0) };
}

pub fn enter_sut() {
    IN_SUT.with(|x| x.set(x.get() + 1));
}
pub fn leave_sut() {
    IN_SUT.with(|x| x.set(x.get() - 1));
}
/// Run harness code (the simulated source) called from within the system under test.
pub fn harness<T>(f: impl FnOnce() -> T) -> T {
    let old = IN_SUT.with(|x| x.replace(0));
    struct R(u32);
    impl Drop for R {
        fn drop(&mut self) {
            IN_SUT.with(|x| x.set(self.0));
        }
    }
    let _r = R(old);
    f()
}
fn counted() -> bool {
    if !sched::active() {
        return false;
    }
    if IN_SUT.with(|x| x.get()) > 0 {
        return true;
    }
    // worker threads are started by the system under test
    sched::tid() > 0 && sched::role() == sched::Role::Sut
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
    MAX_SINGLE.store(0, Relaxed);
}

unsafe fn get(size: usize, align: usize, zero: bool) -> *mut u8 {
    let cnt = counted();
    if !cnt && sched::active() && sched::tid() > 0 && sched::role() == sched::Role::Pool {
        POOL_TOTAL.fetch_add(size as u64, Relaxed);
    }
    if cnt {
        let l = LIVE.fetch_add(size as i64, Relaxed) + size as i64;
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        TOTAL.fetch_add(size as u64, Relaxed);
        if l > PEAK.load(Relaxed) {
            PEAK.store(l, Relaxed);
        }
        if size as u64 > MAX_SINGLE.load(Relaxed) {
            MAX_SINGLE.store(size as u64, Relaxed);
        }
        if l > BUDGET.load(Relaxed) {
            crate::exec::verdict("alloc-budget", &format!("allocation of {} bytes brings the decoder to {} bytes, more than the budget of {}", size, l, BUDGET.load(Relaxed)));
        }
    }
    let g = if cnt || (sched::tid() > 0 && sched::active() && sched::role() == sched::Role::Pool) { GUARD.load(Relaxed) } else { 0 };
    if g != 0 && align <= 64 && size >= 16 {
        let data_off;
        let inner = (size + HDR + align + 4095) & !4095;
        let total = inner + 8192;
        let base = libc::mmap(std::ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
        if base as isize == -1 {
            return std::ptr::null_mut();
        }
        libc::mprotect(base.add(4096) as *mut _, inner, libc::PROT_READ | libc::PROT_WRITE);
        if g == 1 {
            let end = base as usize + 4096 + inner;
            let p = (end - size) & !(align - 1);
            data_off = p - base as usize;
        } else {
            // as close to the start as the header allows; the header page itself is
            // ours, so only underruns of more than the header are caught
            let p = (base as usize + 4096 + HDR + align - 1) & !(align - 1);
            data_off = p - base as usize;
        }
        let p = base.add(data_off);
        std::ptr::write_unaligned(
            p.sub(HDR) as *mut Hdr,
            Hdr { magic: MAGIC, flags: cnt as u32 | 2, size: size as u64, base: base as u64, maplen: total as u64 },
        );
        GUARDED.fetch_add(1, Relaxed);
        if !zero && JUNK.load(Relaxed) {
            std::ptr::write_bytes(p, 0xCB, size);
        }
        return p;
    }
    let align = align.max(16);
    let total = size + HDR + align;
    let base = if zero && size > 4096 { libc::calloc(1, total) } else { libc::malloc(total) } as *mut u8;
    if base.is_null() {
        return base;
    }
    let p = ((base as usize + HDR + align - 1) & !(align - 1)) as *mut u8;
    std::ptr::write_unaligned(
        p.sub(HDR) as *mut Hdr,
        Hdr { magic: MAGIC, flags: cnt as u32, size: size as u64, base: base as u64, maplen: 0 },
    );
    if zero {
        if size <= 4096 {
            std::ptr::write_bytes(p, 0, size);
        }
    } else if JUNK.load(Relaxed) && cnt {
        std::ptr::write_bytes(p, 0xCB, size);
    }
    p
}

unsafe fn put(p: *mut u8, l: Layout) {
    let h = std::ptr::read_unaligned(p.sub(HDR) as *const Hdr);
    let (magic, size) = (h.magic, h.size);
    if magic != MAGIC || size != l.size() as u64 {
        if magic == FREED {
            crate::exec::verdict("memory", "double free");
        }
        crate::exec::verdict("memory", "block header overwritten or wrong size passed to free");
    }
    if h.flags & 1 != 0 {
        LIVE.fetch_sub(size as i64, Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
    }
    if h.flags & 2 != 0 {
        libc::munmap(h.base as *mut _, h.maplen as usize);
        return;
    }
    (p.sub(HDR) as *mut u32).write_unaligned(FREED);
    if JUNK.load(Relaxed) && h.flags & 1 != 0 {
        std::ptr::write_bytes(p, 0xDD, l.size());
    }
    libc::free(h.base as *mut _);
}

unsafe impl GlobalAlloc for Mem {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        get(l.size(), l.align(), false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        get(l.size(), l.align(), true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        put(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = get(n, l.align(), false);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            put(p, l);
        }
        q
    }
}
