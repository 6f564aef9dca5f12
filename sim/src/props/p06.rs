//! Concurrent decoders do not influence each other.
use super::common::*;
use super::damage::any_bytes;
use super::p02::draw_err;
use crate::exec::{cnt, C};
use crate::sched::{self, Role};
use crate::subject::*;
use crate::tr;

struct Job {
    data: Arc<Vec<u8>>,
    plan: Plan,
    ops: Vec<Op>,
    drop_after: usize,
    caller: Caller,
}

fn job(j: &Job) -> Vec<Step> {
    let mut s = Subj::new(&j.data, j.plan.clone());
    let r = run_ops(&mut s, &j.ops[..j.drop_after]);
    drop(s);
    r
}

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { wide: 60, max_w: 40, max_h: 40, ..Opt::any() };
    let n = 2 + t.weighted(&[3, 2, 1]);
    let shared_image = t.chance(1, 4);
    let mut jobs: Vec<Job> = vec![];
    for k in 0..n {
        let (data, segs, w, h) = if shared_image && k > 0 {
            (jobs[0].data.clone(), vec![], 64, 64)
        } else {
            let b = any_bytes(t, &o, 15, 150_000);
            (Arc::new(b.data), b.segs, b.im.w, b.im.h)
        };
        let mut plan = if t.chance(1, 3) { Plan::draw_benign(t) } else { Plan::plain() };
        match t.weighted(&[6, 2, 2, 1]) {
            0 => {}
            f => {
                let off = draw_pos(t, &segs, data.len());
                let f = match f {
                    1 => Fault::Panic,
                    2 => draw_err(t),
                    _ => Fault::Eof,
                };
                tr!("source {} at byte {}: {:?}", k, off, f);
                plan = plan.with(off, f);
            }
        }
        let ops = draw_ops(t, w, h, true);
        let drop_after = if t.chance(1, 8) { t.draw(ops.len() as u32) as usize } else { ops.len() };
        if drop_after < ops.len() {
            cnt(C::FaultDropped);
        }
        tr!("decoder {}: {:?} of which the first {}", k, ops, drop_after);
        tr_bytes("data", &data);
        jobs.push(Job { data, plan, ops, drop_after, caller: draw_caller(t) });
    }
    let mode = t.weighted(&[4, 2, 2]);
    let order: Vec<u32> = (0..24).map(|_| t.draw(n as u32)).collect();
    let roam = draw_roam(t, 24);
    let pool = draw_pool(t);
    let first = t.chance(1, 2);
    // very many more decoders come before those that are compared, or stay half used while they work
    let mut crowd: Vec<Job> = vec![];
    let mut kept = false;
    if t.chance(1, 8) {
        let small = Opt { wide: 0, huge: 0, mass: 0, max_w: 16, max_h: 16, ..Opt::any() };
        let b = generate(t, &small);
        let (data, w, h) = (Arc::new(assemble(&b.segs)), b.w, b.h);
        let k = *t.pick(&[9, 12, 18, 30, 45, 70, 140, 270]) as usize + t.draw(6) as usize;
        let usual = t.draw(4);
        let ops = draw_ops(t, w, h, true);
        let at = draw_pos(t, &b.segs, data.len());
        for _ in 0..k {
            let what = if t.chance(1, 8) { t.draw(4) } else { usual };
            let mut plan = Plan::plain();
            let pos = if t.chance(1, 4) { t.draw(data.len() as u32) as usize } else { at };
            match what {
                0 => {}
                1 => plan = plan.with(pos, Fault::Panic),
                2 => plan = plan.with(pos, draw_err(t)),
                _ => plan = plan.with(pos, Fault::Eof),
            }
            let drop_after = if t.chance(1, 8) { t.draw(ops.len() as u32) as usize } else { ops.len() };
            crowd.push(Job { data: data.clone(), plan, ops: ops.clone(), drop_after, caller: Caller::Main });
        }
        kept = t.chance(1, 4);
        tr!("crowd of {} (usually fault {}, kept {}): {:?}", k, usual, kept, ops);
        tr_bytes("crowd data", &data);
    }
    let first = first && crowd.is_empty();
    start(c, pool, WELL_FORMED_BUDGET * 2);
    let run_alone = || -> Vec<Vec<Step>> {
        sched::quiet(true);
        let r = jobs.iter().map(job).collect();
        sched::quiet(false);
        r
    };
    // what a process initialises once must be right for those who come first, too
    let before = (!first).then(run_alone);
    cnt(C::ProbeConcurrent);
    nontrivial();
    let mut open = vec![];
    if !crowd.is_empty() {
        cnt(C::ProbeCrowd);
        sched::quiet(true);
        for j in &crowd {
            let mut s = Subj::new(&j.data, j.plan.clone());
            run_ops(&mut s, &j.ops[..j.drop_after]);
            if kept {
                open.push(s);
            }
        }
        sched::quiet(false);
    }
    let got: Vec<Vec<Step>> = match mode {
        1 => {
            // calls of several decoders interleaved on one thread
            on(if roam.is_empty() { jobs[0].caller } else { Caller::Main }, || {
                let mut ss: Vec<Subj> = jobs.iter().map(|j| Subj::new(&j.data, j.plan.clone())).collect();
                let mut out: Vec<Vec<Step>> = vec![vec![]; n];
                let mut calls = 0;
                let mut step = |k: usize, ss: &mut Vec<Subj>, out: &mut Vec<Vec<Step>>| {
                    let i = out[k].len();
                    if i < jobs[k].drop_after {
                        let v = apply_roam(&roam, calls, &mut ss[k], &jobs[k].ops[i]);
                        calls += 1;
                        let l = look(&mut ss[k], v);
                        out[k].push(l);
                    }
                };
                for &k in &order {
                    step(k as usize, &mut ss, &mut out);
                }
                for k in 0..n {
                    for _ in 0..jobs[k].ops.len() {
                        step(k, &mut ss, &mut out);
                    }
                }
                out
            })
        }
        #[cfg(feature = "rayon")]
        2 => {
            // tasks of one pool
            let mut out: Vec<Vec<Step>> = vec![vec![]; n];
            rayon::scope(|s| {
                for (o, j) in out.iter_mut().zip(&jobs) {
                    s.spawn(move |_| *o = job(j));
                }
            });
            out
        }
        _ => std::thread::scope(|s| {
            let hs: Vec<_> = jobs
                .iter()
                .map(|j| {
                    sched::with_role(Role::Client, || {
                        s.spawn(move || {
                            #[cfg(feature = "rayon")]
                            if j.caller == Caller::InPool {
                                return on(Caller::InPool, || job(j));
                            }
                            job(j)
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| verdict("harness", "client panicked"))).collect()
        }),
    };
    drop(open);
    let alone = before.unwrap_or_else(run_alone);
    for k in 0..n {
        for (i, (a, g)) in alone[k].iter().zip(&got[k]).enumerate() {
            if let Some(d) = a.diff(g) {
                violation("interference", &format!("decoder {} of {}, call {:?}: alone vs together with the others: {}", k, n, jobs[k].ops[i], d));
            }
        }
    }
    check_worker_panics();
}
