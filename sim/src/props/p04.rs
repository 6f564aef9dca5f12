//! Parallel decoding refines the sequential reference model.
use super::common::*;
use super::damage::lose_tail;
use crate::exec::{cnt, shm, C};
use crate::jpeg::{Image, Proc};
use crate::model;
use crate::sched;
use crate::subject::*;
use crate::tr;
use std::sync::atomic::Ordering::*;

pub const EXACT: bool = cfg!(feature = "pi");
pub const TOL: i32 = 6;

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { wide: 45, max_w: if c.thorough { 120 } else { 64 }, max_h: if c.thorough { 120 } else { 64 }, mass: 40, ..Opt::any() };
    let im = generate(t, &o);
    note_image(&im);
    tr!("image: {}", describe(&im));
    let n = im.comps.len();
    let mut ops = vec![];
    let mut s = 8;
    let mut xf = im.xf;
    if im.proc != Proc::Lossless && t.chance(1, 3) {
        let (a, b) = draw_request(t, im.w, im.h);
        ops.push(Op::Scale(a, b));
        s = model::choose_scale(im.w, im.h, a as usize, b as usize);
    }
    if t.chance(1, 5) {
        let (k, x) = draw_override(t, n);
        ops.push(Op::SetXf(k));
        if im.proc != Proc::Lossless {
            xf = x;
        }
    }
    ops.push(Op::Decode);
    // an unfinished progressive image is rendered as far as it goes
    let mut segs = im.segs.clone();
    let mut coefs = None;
    if t.chance(1, 4) {
        if let Some((have, left)) = lose_tail(t, &im) {
            segs = left;
            coefs = Some(model::received(&im, &have));
        }
    }
    let plan = if t.chance(1, 4) { Plan::draw_benign(t) } else { Plan::plain() };
    let caller = draw_caller(t);
    let pool = draw_pool(t);
    let data = Arc::new(assemble(&segs));
    tr!("calls {:?} caller {:?} pool {}", ops, caller, pool);
    tr_bytes("data", &data);
    start(c, pool, WELL_FORMED_BUDGET);
    let got = on(caller, || {
        let mut s = Subj::new(&data, plan.clone());
        run_ops(&mut s, &ops)
    });
    let last = got.last().unwrap().clone();
    check_worker_panics();
    if let Some(f) = last.val.fail() {
        violation("refused", &format!("well-formed image fails: {}: {}", f.short(), describe(&im)));
        return;
    }
    sched::quiet(true);
    let base = {
        let mut s = Subj::new(&data, Plan::plain());
        run_ops(&mut s, &ops)
    };
    sched::quiet(false);
    if let Some(d) = base.last().unwrap().diff(&last) {
        violation("schedule", &format!("result depends on the schedule or on the calling thread: undisturbed vs simulated: {}", d));
    }
    let Val::Px(Ok(px)) = &last.val else { unreachable!() };
    shm().state_hash.store(crate::exec::hash_bytes(px) | 1, Relaxed);
    if s != 8 {
        cnt(C::ImgScaled);
    }
    let coefs = coefs.as_ref().unwrap_or(&im.coefs);
    if !in_simd_range(&im, coefs) {
        return;
    }
    let want = model::render(&im, coefs, s, xf);
    cnt(C::ProbeModelCompared);
    compare(px, &want, &describe(&im), EXACT || im.proc == Proc::Lossless);
}

/// First approximations with coarse tables leave the range of the 16-bit SIMD transform.
pub fn in_simd_range(im: &Image, coefs: &[Vec<[i16; 64]>]) -> bool {
    EXACT || !coefs.iter().zip(&im.qts).any(|(bs, q)| bs.iter().any(|b| (0..64).any(|k| (b[k] as i32 * q[k] as i32).abs() > 2047)))
}

pub fn compare(px: &[u8], want: &model::Render, what: &str, exact: bool) {
    if px.len() != want.px.len() {
        violation("model-size", &format!("{} bytes returned, {}x{}x{} expected: {}", px.len(), want.w, want.h, want.bpp, what));
        return;
    }
    if exact {
        cnt(C::ProbeModelExact);
        if let Some(k) = (0..px.len()).find(|&k| px[k] != want.px[k]) {
            let p = k / want.bpp;
            violation("model", &format!("pixel ({}, {}) channel {} is {}, reference {}: {}", p % want.w, p / want.w, k % want.bpp, px[k], want.px[k], what));
        }
    } else {
        let mut worst = (0, 0);
        let mut sum = 0u64;
        for k in 0..px.len() {
            let d = (px[k] as i32 - want.px[k] as i32).abs();
            sum += d as u64;
            if d > worst.0 {
                worst = (d, k);
            }
        }
        let k = worst.1;
        let mean = sum as f64 / px.len() as f64;
        if worst.0 > TOL || mean > 1.6 {
            let p = k / want.bpp;
            violation("model", &format!("pixel ({}, {}) channel {} is {}, reference {} (mean difference {:.2}): {}", p % want.w, p / want.w, k % want.bpp, px[k], want.px[k], mean, what));
        }
    }
}
