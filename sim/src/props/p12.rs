//! Restart intervals isolate and reveal damage.
use super::common::*;
use crate::exec::{cnt, C};
use crate::jpeg::{Image, Proc, Xf, K};
use crate::model;
use crate::sched;
use crate::subject::*;
use crate::tape::Tape;
use crate::tr;

/// Bytes of the intervals, each with the marker that introduces it (the first has none).
fn parts(ivs: &[Vec<u8>]) -> Vec<Vec<u8>> {
    ivs.iter()
        .enumerate()
        .map(|(i, iv)| {
            let mut v = vec![];
            if i > 0 {
                v.extend([0xff, 0xd0 + ((i - 1) % 8) as u8]);
            }
            v.extend(iv);
            v
        })
        .collect()
}

/// Positions in an interval whose change neither makes nor breaks a marker or a stuffed byte.
fn flippable(iv: &[u8]) -> Vec<usize> {
    (0..iv.len()).filter(|&i| iv[i] != 0xff && (i == 0 || iv[i - 1] != 0xff)).collect()
}

fn refined_later(im: &Image, s: usize) -> bool {
    let a = &im.scans[s];
    a.al > 0 && im.proc == Proc::Progressive
        || im.scans[s + 1..].iter().any(|b| im.proc == Proc::Progressive && b.comps.iter().any(|c| a.comps.contains(c)) && b.ss <= a.se && a.ss <= b.se)
}

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { restart: [0, 1], meta: false, max_w: 64, max_h: 64, wide: 25, procs: [4, 1, 4, 3], mass: 60, ..Opt::any() };
    let im = generate(t, &o);
    note_image(&im);
    tr!("image: {}", describe(&im));
    let mut segs = im.segs.clone();
    let ecs: Vec<usize> = find(&segs, |k| matches!(k, K::Ecs(_)));
    let bits = t.chance(1, 2);
    let mut hit: Vec<(usize, usize, usize)> = vec![];
    let mut rows: Vec<(usize, usize)> = vec![]; // lossless: scan, interval
    let mut label = String::new();
    if bits {
        let ok: Vec<usize> = ecs.iter().copied().filter(|&i| matches!(segs[i].k, K::Ecs(s) if !refined_later(&im, s))).collect();
        let multi: Vec<usize> = ok.iter().copied().filter(|&i| segs[i].ivs.len() > 1).collect();
        let from = if multi.is_empty() { ok } else { multi };
        if from.is_empty() {
            discard();
        }
        let n = 1 + t.weighted(&[4, 1]);
        for _ in 0..n {
            let i = *t.pick(&from);
            let K::Ecs(s) = segs[i].k else { unreachable!() };
            let iv = t.draw(segs[i].ivs.len() as u32) as usize;
            let count = 1 + t.weighted(&[5, 2, 1, 1]);
            let mut done = 0;
            for _ in 0..count {
                let f = flippable(&segs[i].ivs[iv]);
                if f.is_empty() {
                    break;
                }
                let p = *t.pick(&f);
                let b = t.draw(8);
                if segs[i].ivs[iv][p] ^ (1 << b) == 0xff {
                    continue;
                }
                segs[i].ivs[iv][p] ^= 1 << b;
                done += 1;
                cnt(C::FaultIntervalBits);
                label.push_str(&format!("scan {} interval {} byte {} bit {}; ", s, iv, p, b));
            }
            if done > 0 {
                if im.proc == Proc::Lossless {
                    rows.push((s, iv));
                } else {
                    hit.extend(model::interval_blocks(&im, &im.scans[s], iv));
                }
            }
            segs[i].join();
        }
    } else {
        let from: Vec<usize> = ecs.iter().copied().filter(|&i| segs[i].ivs.len() > 2).collect();
        if from.is_empty() {
            discard();
        }
        let faults = if t.chance(1, 6) { 2 } else { 1 };
        let mut used = vec![];
        for _ in 0..faults {
            let i = *t.pick(&from);
            if used.contains(&i) {
                continue;
            }
            used.push(i);
            let mut p = parts(&segs[i].ivs);
            let n = p.len();
            label.push_str(&format!("{:?}: ", segs[i].k));
            interval_fault(t, &mut p, n, &mut label);
            segs[i].bytes = p.concat();
        }
    }
    let mut ops = vec![];
    let mut s = 8;
    if im.proc != Proc::Lossless && t.chance(1, 4) {
        let (a, b) = draw_request(t, im.w, im.h);
        ops.push(Op::Scale(a, b));
        s = model::choose_scale(im.w, im.h, a as usize, b as usize);
    }
    let mut xf = im.xf;
    if t.chance(1, 4) {
        let (k, x) = draw_override(t, im.comps.len());
        ops.push(Op::SetXf(k));
        if im.proc != Proc::Lossless {
            xf = x;
        }
    }
    ops.push(Op::Decode);
    let plan = if t.chance(1, 4) { Plan::draw_benign(t) } else { Plan::plain() };
    let caller = draw_caller(t);
    let pool = draw_pool(t);
    let data = Arc::new(assemble(&segs));
    let good = Arc::new(assemble(&im.segs));
    tr!("fault: {}; calls {:?}", label, ops);
    tr_bytes("undamaged", &good);
    tr_bytes("data", &data);
    start(c, pool, WELL_FORMED_BUDGET);
    sched::quiet(true);
    let base = {
        let mut s = Subj::new(&good, Plan::plain());
        run_ops(&mut s, &ops).pop().unwrap().val
    };
    sched::quiet(false);
    let Val::Px(Ok(base)) = base else { discard() };
    nontrivial();
    let got = on(caller, || {
        let mut s = Subj::new(&data, plan.clone());
        run_ops(&mut s, &ops).pop().unwrap().val
    });
    check_worker_panics();
    check_no_panic(&got, "decode");
    let Val::Px(got) = got else { unreachable!() };
    let px = match got {
        Err(_) => {
            cnt(C::ProbeDamageDetected);
            return;
        }
        Ok(p) => p,
    };
    cnt(C::ProbeDamageSurvived);
    if px == base {
        cnt(C::ProbeDamageHarmless);
        return;
    }
    if px.len() != base.len() {
        violation("damaged-size", &format!("{} bytes, undamaged {}", px.len(), base.len()));
        return;
    }
    if !bits {
        let k = (0..px.len()).find(|&k| px[k] != base[k]).unwrap();
        violation("interval-fault-unnoticed", &format!("{}: decode succeeds with other pixels (first at byte {})", label, k));
        return;
    }
    let (ow, oh) = ((im.w * s).div_ceil(8), (im.h * s).div_ceil(8));
    let bpp = px.len() / (ow * oh);
    let mask = if im.proc == Proc::Lossless {
        let mut m = vec![false; ow * oh];
        for &(s, iv) in &rows {
            let ri = im.scans[s].ri;
            let (a, b) = if ri == 0 { (0, ow * oh) } else { (iv * ri, ((iv + 1) * ri).min(ow * oh)) };
            m[a..b].fill(true);
        }
        m
    } else {
        model::affected(&im, &hit, s)
    };
    // where samples are not mixed with those of other components, these must not change either
    let apart = im.proc != Proc::Lossless && matches!(xf, Xf::None | Xf::Rgb | Xf::Cmyk);
    let masks: Vec<Vec<bool>> = if apart {
        (0..bpp).map(|i| model::affected(&im, &hit.iter().filter(|h| h.0 == i).copied().collect::<Vec<_>>(), s)).collect()
    } else {
        vec![mask; bpp]
    };
    if let Some(k) = (0..px.len()).find(|&k| px[k] != base[k] && !masks[k % bpp][k / bpp]) {
        let p = k / bpp;
        violation("damage-spreads", &format!("{}: pixel ({}, {}) channel {} changed although it does not depend on the damaged interval", label, p % ow, p / ow, k % bpp));
    }
}

fn interval_fault(t: &mut Tape, p: &mut Vec<Vec<u8>>, n: usize, label: &mut String) {
    match t.weighted(&[3, 2, 3]) {
        0 => {
            // lost: up to seven, adjacent or not
            let m = (1 + t.weighted(&[5, 1, 1, 1, 1, 1, 1])).min(n - 1);
            let adjacent = t.chance(1, 2);
            let mut a = 1 + t.draw((n - m) as u32) as usize;
            for _ in 0..m {
                label.push_str(&format!("one of {} lost at {}; ", p.len(), a));
                p.remove(a);
                if !adjacent && p.len() > 1 {
                    a = 1 + t.draw(p.len() as u32 - 1) as usize;
                }
                a = a.min(p.len() - 1).max(1);
                if p.len() == 1 {
                    break;
                }
            }
            cnt(C::FaultIntervalLoss);
        }
        1 => {
            let m = (1 + t.weighted(&[5, 1, 1, 1, 1, 1, 1])).min(n - 1);
            let a = 1 + t.draw((n - m) as u32) as usize;
            let run: Vec<Vec<u8>> = p[a..a + m].to_vec();
            label.push_str(&format!("{}..{} of {} sent twice; ", a, a + m, n));
            for (k, x) in run.into_iter().enumerate() {
                p.insert(a + m + k, x);
            }
            cnt(C::FaultIntervalDup);
        }
        _ => {
            let a = 1 + t.draw(n as u32 - 2) as usize;
            let d = 1 + t.draw(((n - 1 - a) as u32).min(7)) as usize;
            p.swap(a, a + d);
            label.push_str(&format!("{} and {} of {} exchanged; ", a, a + d, n));
            cnt(C::FaultIntervalSwap);
        }
    }
}
