//! The decoding buffer limit is honoured.
use super::common::*;
use super::damage::{bound_dims, mutate_bytes};
use crate::exec::{cnt, C};
use crate::jpeg::{Proc, Seg, K};
use crate::mem;
use crate::model;
use crate::sched;
use crate::subject::*;
use crate::tr;
use std::sync::atomic::Ordering::*;

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { max_w: 64, max_h: 64, wide: 25, procs: [3, 2, 4, 4], ..Opt::any() };
    let im = generate(t, &o);
    note_image(&im);
    tr!("image: {}", describe(&im));
    let mut segs = im.segs.clone();
    let hostile = t.chance(1, 3);
    let (mut w, mut h) = (im.w, im.h);
    if hostile {
        // the same file with a frame header that declares a huge picture
        let dims = [65500usize, 65535, 30000, 12000, 5000, 2000];
        w = *t.pick(&dims) - t.draw(9) as usize;
        h = *t.pick(&dims) - t.draw(9) as usize;
        if t.chance(1, 4) {
            // just beyond a multiple of 2^32, or 2^31, or 2^30 bytes
            let bpp = im.comps.len() * if im.precision > 8 { 2 } else { 1 };
            w = match t.draw(3) {
                0 => 65535,
                1 => 65536 - (1 << t.draw(9)),
                _ => 32768 + t.draw(32768) as usize,
            };
            let at = ((1usize << (30 + t.draw(3))) * (1 + t.draw(3) as usize)).div_ceil(w * bpp) + t.draw(2) as usize;
            if at < 65536 {
                h = at;
            }
            if t.chance(1, 4) {
                (w, h) = (32768, 32768);
            }
        }
        let i = find(&segs, |k| *k == K::Sof)[0];
        segs[i].bytes[5..7].copy_from_slice(&(h as u16).to_be_bytes());
        segs[i].bytes[7..9].copy_from_slice(&(w as u16).to_be_bytes());
        cnt(C::FaultHostileSize);
        tr!("declared as {}x{}", w, h);
        if t.chance(1, 4) {
            let n = t.draw(segs.len() as u32) as usize;
            segs.truncate(n.max(i + 1));
            cnt(C::FaultTruncate);
            if t.chance(1, 2) {
                segs.push(Seg::new(K::Eoi, vec![0xff, 0xd9]));
            }
        }
    }
    let mut data = assemble(&segs);
    let damaged = !hostile && t.chance(1, 5);
    if damaged {
        mutate_bytes(t, &mut data, &|_| vec![0xff, 0xd9]);
        bound_dims(&mut data, 300_000);
    }
    // calls
    let mut ops = vec![];
    let mut s = 8;
    for _ in 0..t.weighted(&[3, 2, 1]) {
        if t.chance(1, 2) {
            let (a, b) = draw_request(t, w, h);
            ops.push(Op::Scale(a, b));
            if im.proc != Proc::Lossless {
                s = model::choose_scale(w, h, a as usize, b as usize);
            }
        } else {
            ops.push(Op::ReadInfo);
        }
    }
    let size = (w * s).div_ceil(8) * (h * s).div_ceil(8) * im.comps.len() * if im.proc == Proc::Lossless && im.precision > 8 { 2 } else { 1 };
    let limit = if hostile {
        match t.draw(8) {
            5 => size % (1 << 32) + t.draw(1 << 20) as usize,
            6 => size - 1,
            7 => size % (1 << 31) + t.draw(1 << 20) as usize,
            k => [0usize, 1, 1000, 100_000, 1_000_000][k as usize],
        }
        .min(size - 1)
    } else {
        match t.weighted(&[3, 3, 2, 2, 2, 1, 1]) {
            0 => size,
            1 => size - 1,
            2 => size + 1,
            3 => t.draw(size as u32) as usize,
            4 => size / 2,
            5 => 0,
            _ => match t.draw(6) {
                0 => usize::MAX,
                1 => isize::MAX as usize + t.draw(2) as usize,
                2 => (1 << 32) + t.draw(size as u32) as usize,
                3 => (1 << 31) + t.draw(size as u32) as usize,
                4 => (1 << 16) * size,
                _ => size * 3,
            },
        }
    };
    let at = t.draw(ops.len() as u32 + 1) as usize;
    ops.insert(at, Op::SetMax(limit));
    if t.chance(1, 5) {
        // an earlier limit that is replaced
        let at = t.draw(at as u32 + 1) as usize;
        let v = t.draw(2 * size.min(1 << 20) as u32) as usize;
        ops.insert(at, Op::SetMax(v));
    }
    ops.push(Op::Decode);
    let plan = if t.chance(1, 3) { Plan::draw_benign(t) } else { Plan::plain() };
    let caller = draw_caller(t);
    let pool = draw_pool(t);
    tr!("decoded size {} limit {} calls {:?}", size, limit, ops);
    tr_bytes("data", &data);
    start(c, pool, WELL_FORMED_BUDGET * 2);
    let budget = (1 << 20) + 4 * data.len() as i64;
    let data = Arc::new(data);
    let base = if !hostile && !damaged {
        sched::quiet(true);
        let mut b = Subj::new(&data, Plan::plain());
        let plain: Vec<Op> = ops.iter().filter(|o| !matches!(o, Op::SetMax(_))).cloned().collect();
        let r = run_ops(&mut b, &plain).pop();
        sched::quiet(false);
        r
    } else {
        None
    };
    sched::drain();
    on(caller, || {
        let mut d = Subj::new(&data, plan.clone());
        let live0 = mem::LIVE.load(Relaxed);
        mem::reset_peak();
        if hostile {
            // an allocation that breaks the budget ends the run there, before it can do harm
            mem::BUDGET.store(live0 + budget, Relaxed);
        }
        let r = run_ops(&mut d, &ops);
        let peak = mem::PEAK.load(Relaxed) - live0;
        mem::BUDGET.store(i64::MAX, Relaxed);
        let last = r.last().unwrap();
        tr!("decode -> {} peak {}", last.val.brief(), peak);
        check_no_panic(&last.val, "decode");
        nontrivial();
        match &last.val {
            Val::Px(Ok(px)) => {
                cnt(C::ProbeLimitAllowed);
                if px.len() > limit {
                    violation("over-limit", &format!("decode returned {} bytes with a limit of {}", px.len(), limit));
                }
                if let Some(b) = &base {
                    if let Some(d) = b.diff(last) {
                        violation("limit-changes-result", &format!("without vs with limit {}: {}", limit, d));
                    }
                }
            }
            v => {
                cnt(C::ProbeLimitRefused);
                if base.is_some() && limit >= size {
                    violation("refused", &format!("image of {} bytes refused with a limit of {}: {}", size, limit, v.brief()));
                }
                if (base.is_some() && limit < size || hostile) && peak > budget {
                    violation("refused-memory", &format!("refusing an image of {} bytes (limit {}) took {} bytes of memory", size, limit, peak));
                }
            }
        }
    });
    check_worker_panics();
}
