//! Refused worker threads fail the call, nothing else. (Builds without a thread pool.)
use super::common::*;
use crate::exec::{cnt, C};
use crate::sched::{self, Role};
use crate::subject::*;
use crate::tr;

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { max_w: 40, max_h: 40, wide: 85, procs: [4, 2, 4, 1], ..Opt::any() };
    let n = 1 + t.weighted(&[3, 3, 1]);
    let mut jobs = vec![];
    for k in 0..n {
        let im = generate(t, &o);
        note_image(&im);
        let data = Arc::new(assemble(&im.segs));
        let ops = draw_ops(t, im.w, im.h, false);
        let plan = if t.chance(1, 4) { Plan::draw_benign(t) } else { Plan::plain() };
        let caller = draw_caller(t);
        tr!("decoder {}: {} calls {:?}", k, describe(&im), ops);
        tr_bytes("data", &data);
        jobs.push((data, ops, plan, caller));
    }
    let concurrent = n > 1 && t.chance(1, 2);
    let (list, first, from) = match t.weighted(&[4, 2, 2]) {
        0 => {
            let k = 1 + t.draw(3) as usize;
            ((0..k).map(|_| t.draw(8) as u64).collect::<Vec<_>>(), 0, u64::MAX)
        }
        1 => (vec![], 1 + t.draw(4) as u64, u64::MAX),
        _ => (vec![], 0, t.draw(6) as u64),
    };
    tr!("thread creations refused: {:?}, the first {}, all from {}; concurrent {}", list, first, from, concurrent);
    start(c, 1, WELL_FORMED_BUDGET);
    sched::quiet(true);
    let base: Vec<Vec<Step>> = jobs
        .iter()
        .map(|j| {
            let mut s = Subj::new(&j.0, Plan::plain());
            run_ops(&mut s, &j.1)
        })
        .collect();
    sched::quiet(false);
    let seq0 = sched::spawn_count();
    let first = if first > 0 { seq0 + first } else { 0 };
    sched::fail_spawns(list.iter().map(|x| x + seq0).collect(), first, from.saturating_add(seq0));
    let refused0 = crate::exec::get(C::FaultSpawnRefused);
    let job = |j: &(Arc<Vec<u8>>, Vec<Op>, Plan, Caller)| {
        let mut s = Subj::new(&j.0, j.2.clone());
        run_ops(&mut s, &j.1)
    };
    let got: Vec<Vec<Step>> = if concurrent {
        cnt(C::ProbeConcurrent);
        std::thread::scope(|s| {
            let hs: Vec<_> = jobs.iter().map(|j| sched::with_role(Role::Client, || s.spawn(|| job(j)))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| verdict("harness", "client panicked"))).collect()
        })
    } else {
        jobs.iter().map(|j| on(j.3, || job(j))).collect()
    };
    let refused = crate::exec::get(C::FaultSpawnRefused) - refused0;
    if refused > 0 {
        nontrivial();
    }
    for (j, (b, g)) in base.iter().zip(&got).enumerate() {
        for (k, (b, g)) in b.iter().zip(g).enumerate() {
            check_no_panic(&g.val, "a call");
            match g.val.fail() {
                Some(Fail::Io { .. }) if refused > 0 => {}
                Some(f) if b.val.fail() != Some(f) => {
                    violation("wrong-error", &format!("decoder {} call {:?}: {} ({} threads refused), expected the pixels or an I/O error", j, jobs[j].1[k], f.short(), refused));
                }
                _ => {
                    if let Some(d) = b.diff(g) {
                        violation("wrong-result", &format!("decoder {} call {:?}, threads available vs refused: {}", j, jobs[j].1[k], d));
                    }
                }
            }
        }
    }
    check_worker_panics();
    sched::drain();
    let (_, live) = sched::threads_by_role(Role::Sut);
    if live > 0 {
        violation("threads-left", &format!("{} worker threads are still there after a call that could not start others", live));
    }
    // threads are available again
    sched::fail_spawns(vec![], 0, u64::MAX);
    let again: Vec<Vec<Step>> = jobs.iter().map(|j| on(j.3, || job(j))).collect();
    for (j, (b, g)) in base.iter().zip(&again).enumerate() {
        for (k, (b, g)) in b.iter().zip(g).enumerate() {
            if let Some(d) = b.diff(g) {
                violation("later-decode", &format!("decoder {} call {:?} after threads were refused to an earlier one: {}", j, jobs[j].1[k], d));
            }
        }
    }
    check_worker_panics();
}
