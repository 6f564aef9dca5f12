//! Losing scans degrades an image, never corrupts it.
use super::common::*;
use super::p04::{compare, in_simd_range, EXACT};
use crate::exec::{cnt, C};
use crate::jpeg::{Proc, Scan, K};
use crate::model;
use crate::sched;
use crate::subject::*;
use crate::tr;

type Chain = (Vec<usize>, u8, u8);
fn chain(s: &Scan) -> Chain {
    (s.comps.clone(), s.ss, s.se)
}

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { max_w: 64, max_h: 64, wide: 30, procs: [2, 1, 8, 2], deep: cfg!(feature = "pi"), ..Opt::any() };
    let im = generate(t, &o);
    note_image(&im);
    tr!("image: {}", describe(&im));
    let n = im.scans.len();
    let prog = im.proc == Proc::Progressive;
    let mut have = vec![true; n];
    let mut cut = None;
    if prog {
        if n < 2 {
            discard();
        }
        if t.chance(1, 2) {
            // the tail of the file is lost
            let k = 1 + t.draw(n as u32 - 1) as usize;
            have[k..].fill(false);
            cut = Some(k);
        } else {
            // the tails of some of the chains of refinements are lost
            let mut chains: Vec<Chain> = vec![];
            for s in &im.scans {
                if !chains.contains(&chain(s)) {
                    chains.push(chain(s));
                }
            }
            for ch in &chains {
                let idx: Vec<usize> = (0..n).filter(|&i| chain(&im.scans[i]) == *ch).collect();
                if t.chance(1, 2) {
                    let keep = t.draw(idx.len() as u32 + 1) as usize;
                    for &i in &idx[keep..] {
                        have[i] = false;
                    }
                }
            }
            if have.iter().all(|x| !x) {
                have[0] = true;
            }
        }
        cnt(C::FaultScanLoss);
    } else {
        let k = t.draw(n as u32) as usize;
        have[k] = false;
        for i in 0..n {
            if i != k && t.chance(1, 3) {
                have[i] = false;
            }
        }
        cnt(C::FaultCompLoss);
    }
    // with a lost tail the tables between the lost scans may be gone, too
    let tables_too = cut.is_some() && t.chance(2, 3);
    let mut segs = vec![];
    let mut past = false;
    for s in &im.segs {
        match s.k {
            K::Sos(i) | K::Ecs(i) => {
                if have[i] {
                    segs.push(s.clone());
                }
                if let (K::Ecs(i), Some(k)) = (s.k, cut) {
                    past |= i + 1 == k;
                }
            }
            K::Dht | K::Dri if past && tables_too => {}
            _ => segs.push(s.clone()),
        }
    }
    let mut ops = vec![];
    let mut s = 8;
    let mut xf = im.xf;
    if im.proc != Proc::Lossless && t.chance(1, 3) {
        let (a, b) = draw_request(t, im.w, im.h);
        ops.push(Op::Scale(a, b));
        s = model::choose_scale(im.w, im.h, a as usize, b as usize);
        cnt(C::ImgScaled);
    } else if t.chance(1, 4) {
        ops.push(Op::ReadInfo);
    }
    if t.chance(1, 6) && prog {
        let (k, x) = draw_override(t, im.comps.len());
        ops.push(Op::SetXf(k));
        xf = x;
    }
    ops.push(Op::Decode);
    let plan = if t.chance(1, 3) { Plan::draw_benign(t) } else { Plan::plain() };
    let caller = draw_caller(t);
    let pool = draw_pool(t);
    let data = Arc::new(assemble(&segs));
    tr!("scans that arrive: {:?}; calls {:?}", have, ops);
    tr_bytes("data", &data);
    start(c, pool, WELL_FORMED_BUDGET);
    nontrivial();
    let got = on(caller, || {
        let mut s = Subj::new(&data, plan.clone());
        run_ops(&mut s, &ops).pop().unwrap()
    });
    check_worker_panics();
    check_no_panic(&got.val, "decode");
    let Val::Px(px) = &got.val else { unreachable!() };
    if !prog {
        if let Ok(p) = px {
            violation("component-invented", &format!("decode returns {} bytes although scans {:?} never arrived: {}", p.len(), have, describe(&im)));
        }
        return;
    }
    let px = match px {
        Ok(p) => p,
        Err(f) => {
            violation("partial-refused", &format!("{}: scans received {:?} of {}", f.short(), have, describe(&im)));
            return;
        }
    };
    sched::quiet(true);
    let base = {
        let mut s = Subj::new(&data, Plan::plain());
        run_ops(&mut s, &ops).pop().unwrap()
    };
    sched::quiet(false);
    if let Some(d) = base.diff(&got) {
        violation("schedule", &format!("result depends on the schedule: {}", d));
    }
    let have_coefs = model::received(&im, &have);
    if !in_simd_range(&im, &have_coefs) {
        return;
    }
    let want = model::render(&im, &have_coefs, s, xf);
    cnt(C::ProbePartial);
    cnt(C::ProbeModelCompared);
    compare(px, &want, &format!("scans received {:?} of {}", have, describe(&im)), EXACT);
}
