//! Every decode finishes and cleans up after itself.
use super::common::*;
use super::damage::{lose_tail, mutate_bytes, mutate_segs, bound_dims};
use super::p02::draw_err;
use crate::exec::{cnt, C};
use crate::mem;
use crate::sched::{self, Role};
use crate::subject::*;
use crate::tr;
use std::sync::atomic::Ordering::*;

struct Job {
    data: Arc<Vec<u8>>,
    plan: Plan,
    ops: Vec<Op>,
    caller: Caller,
    forget_result: bool,
}

fn check_threads(when: &str) {
    let (made, live) = sched::threads_by_role(Role::Sut);
    if live > 0 {
        violation("threads-left", &format!("{} of {} worker threads still there {}: {}", live, made, when, sched::describe()));
    }
}

fn job(j: &Job) -> Vec<Step> {
    let mut s = Subj::new(&j.data, j.plan.clone());
    let mut out = vec![];
    for op in &j.ops {
        let v = apply(&mut s, op);
        tr!("{:?} -> {}", op, v.brief());
        if let Some(Fail::Panic(m)) = v.fail() {
            violation("panic", &format!("{:?} panicked: {}", op, m));
        }
        if !j.forget_result {
            out.push(Step { val: v, info: None, exif: None, xmp: None, icc: None, pos: 0 });
        }
    }
    out
}

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { wide: 75, max_w: 60, max_h: 60, meta: false, ..Opt::any() };
    // several unfinished progressive images at once, now and then
    let unfinished = t.chance(1, 4);
    let o = if unfinished { Opt { procs: [0, 0, 1, 0], wide: 100, ..o } } else { o };
    let n = 1 + t.weighted(if unfinished { &[1, 3, 2] } else { &[3, 2, 1] });
    let all_in_pool = unfinished && t.chance(2, 3);
    let mut jobs = vec![];
    for _ in 0..n {
        let im = generate(t, &o);
        note_image(&im);
        tr!("image: {}", describe(&im));
        let mut segs = im.segs.clone();
        if unfinished || t.chance(1, 8) {
            if let Some((_, left)) = lose_tail(t, &im) {
                segs = left;
            }
        }
        let dmg = t.chance(1, if unfinished { 8 } else { 4 });
        if dmg && t.chance(1, 2) {
            mutate_segs(t, &im, &mut segs);
        }
        let mut data = assemble(&segs);
        if dmg {
            mutate_bytes(t, &mut data, &|_| vec![0xff, 0xd9]);
            bound_dims(&mut data, 200_000);
        }
        let mut plan = if t.chance(1, 3) { Plan::draw_benign(t) } else { Plan::plain() };
        match t.weighted(if unfinished { &[9, 1, 1, 1] } else { &[4, 3, 2, 1] }) {
            0 => {}
            1 => {
                let off = draw_pos(t, &segs, data.len());
                tr!("source panics at {}", off);
                plan = plan.with(off, Fault::Panic);
            }
            2 => {
                let off = draw_pos(t, &segs, data.len());
                let e = draw_err(t);
                tr!("source fails at {}: {:?}", off, e);
                plan = plan.with(off, e);
            }
            _ => {
                let off = draw_pos(t, &segs, data.len());
                tr!("source ends at {}", off);
                plan = plan.with(off, Fault::Eof);
            }
        }
        let mut ops = draw_ops(t, im.w, im.h, false);
        if t.chance(1, 8) {
            ops.pop(); // dropped without being decoded
            cnt(C::FaultDropped);
        }
        tr!("calls {:?} plan {:?}", ops, plan.chunk);
        jobs.push(Job { data: Arc::new(data), plan, ops, caller: if all_in_pool { Caller::InPool } else { draw_caller(t) }, forget_result: t.chance(1, 2) });
    }
    let concurrent = n > 1 && t.chance(if unfinished { 5 } else { 3 }, 6);
    #[cfg_attr(not(feature = "rayon"), allow(unused_variables))]
    let together = t.chance(1, 3);
    let pool = draw_pool(t);
    // the same over and over: a few bytes each time add up
    let slow = !concurrent && t.chance(1, 25);
    let budget = WELL_FORMED_BUDGET;
    start(c, pool, budget);
    mem::JUNK.store(true, Relaxed);
    let live0 = mem::LIVE.load(Relaxed);
    nontrivial();
    if concurrent {
        cnt(C::ProbeConcurrent);
        #[cfg(feature = "rayon")]
        if together {
            cnt(C::ProbeInsidePool);
            rayon::scope(|s| {
                for j in &jobs {
                    s.spawn(move |_| drop(job(j)));
                }
            });
        } else {
            clients(&jobs);
        }
        #[cfg(not(feature = "rayon"))]
        clients(&jobs);
        sched::drain();
        check_threads("after all calls have returned and everything else has come to rest");
    } else {
        for j in &jobs {
            // The decoder and its result outlive the call: what is left then?
            on(j.caller, || {
                let r = job(j);
                if j.caller == Caller::Main {
                    sched::drain();
                    check_threads("after the call has returned and everything else has come to rest");
                }
                drop(r);
            });
            sched::drain();
            check_threads("after the decoder was dropped");
        }
    }
    let (made, _) = sched::threads_by_role(Role::Sut);
    for _ in 0..made {
        cnt(C::ProbeSutThread);
    }
    let leak = mem::LIVE.load(Relaxed) - live0;
    tr!("bytes left: {} in {} blocks", leak, mem::LIVE_BLOCKS.load(Relaxed));
    add(C::Leaked, leak.max(0) as u64);
    // Channel and thread-local caches of std and of the pool remain, and perhaps a table somebody
    // computes once; a plane, a row of coefficients or a worker of these images does not fit in the
    // allowance together with them. When more is left, the same is done again, with slightly larger
    // frames: what is kept once does not grow then.
    let allow = if cfg!(feature = "rayon") { 16 << 10 } else { 2048 };
    if leak > allow {
        sched::set_edge_budget(8 * budget);
        for round in 1..=3 {
            for j in &jobs {
                let mut data = (*j.data).clone();
                widen(&mut data, 8 * round);
                let again = Job { data: Arc::new(data), plan: j.plan.clone(), ops: j.ops.clone(), caller: j.caller, forget_result: j.forget_result };
                on(j.caller, || drop(job(&again)));
                sched::drain();
            }
            cnt(C::ProbeLeftAgain);
        }
        let again = mem::LIVE.load(Relaxed) - live0;
        tr!("bytes left after three more rounds: {}", again);
        if again - leak > allow || leak > 96 << 10 {
            violation("memory-left", &format!("{} bytes remain allocated after all decoders and results are dropped, {} after decoding more of the same", leak, again));
        }
    }
    if slow && leak <= allow {
        slow_leak(&jobs[jobs.len() - 1], budget);
    }
    check_worker_panics();
}

/// Decodes the same again and again; whatever the first few left behind for the next, the later ones must not leave more.
fn slow_leak(j: &Job, budget: u64) {
    sched::set_edge_budget(400 * budget);
    let round = |n: usize| {
        let before = mem::LIVE.load(Relaxed);
        for _ in 0..n {
            on(Caller::Main, || drop(job(j)));
            sched::drain();
        }
        mem::LIVE.load(Relaxed) - before
    };
    let made = || sched::threads_by_role(Role::Sut).0;
    let before = made();
    round(3);
    // a run cannot have more threads than this
    let window = match (made() - before).div_ceil(3) {
        0 => 30,
        n => (44usize.saturating_sub(made()) / n / 6).min(30),
    };
    if window < 2 {
        return;
    }
    cnt(C::ProbeSlowLeak);
    // (a list that grows doubles its room now and then; what the pool keeps changes now and then)
    let need = if cfg!(feature = "rayon") { 6 } else { 3 };
    let kept: Vec<i64> = (0..6).map(|_| round(window)).collect();
    tr!("bytes kept by six times {} further decodes of the same: {:?}", window, kept);
    if kept.iter().filter(|&&x| x > 0).count() < need || kept.iter().sum::<i64>() < 24 * window as i64 {
        return;
    }
    violation("memory-kept", &format!("each {} decodes of the same leave more bytes allocated: {:?}", window, kept));
}

fn clients(jobs: &[Job]) {
    std::thread::scope(|s| {
        let hs: Vec<_> = jobs.iter().map(|j| sched::with_role(Role::Client, || s.spawn(move || drop(on(j.caller, || job(j)))))).collect();
        for h in hs {
            if h.join().is_err() {
                verdict("harness", "client thread panicked");
            }
        }
    });
}

/// Adds to the width of the first frame.
fn widen(data: &mut [u8], by: u16) {
    let mut i = 0;
    while i + 9 <= data.len() {
        if data[i] == 0xff && (0xc0..=0xc3).contains(&data[i + 1]) && data[i + 2] == 0 {
            let w = u16::from_be_bytes([data[i + 7], data[i + 8]]).saturating_add(by);
            data[i + 7..i + 9].copy_from_slice(&w.to_be_bytes());
            return;
        }
        i += 1;
    }
}
