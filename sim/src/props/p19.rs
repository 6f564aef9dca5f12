//! Work stays in proportion.
//!
//! The same image is decoded three times with some part of the stream there 1, 2 and 17 times as often, as long or as
//! large. Steps of decoder code, memory allocated over the whole call, and reads made of the source are counted. What
//! the 17-fold stream costs beyond the plain one is compared with what the doubled one costs beyond it, and everything
//! with fixed multiples of the data and the frame.
use super::common::*;
use crate::exec::{cnt, C};
use crate::jpeg::{Image, Proc, Seg, K};
use crate::mem;
use crate::sched;
use crate::subject::*;
use crate::tr;
use std::sync::atomic::Ordering::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Grow {
    Scan(usize),
    Table(usize),
    Small(usize),
    Long(usize),
    Fill(usize),
    Stray(usize),
    Icc(usize),
    Height,
    Width,
    Calls,
}
const TIMES: [usize; 3] = [1, 2, 17];

fn grown(im: &Image, g: Grow, k: usize, body: &[u8]) -> Vec<u8> {
    let mut segs = im.segs.clone();
    let seg = |k: usize, b: &[u8]| Seg::marker(K::Noise, k as u8, b);
    match g {
        Grow::Scan(e) => {
            let s = (0..e).rev().find(|&i| matches!(segs[i].k, K::Sos(_))).unwrap();
            let one = segs[s..=e].to_vec();
            for _ in 0..k {
                segs.splice(e + 1..e + 1, one.iter().cloned());
            }
        }
        Grow::Table(i) => {
            let one = segs[i].clone();
            segs.splice(i..i, (0..k).map(|_| one.clone()));
        }
        Grow::Small(i) => {
            let s = seg(body[0] as usize, &body[1..]);
            segs.splice(i..i, (0..k).map(|_| s.clone()));
        }
        Grow::Long(i) => {
            let mut b = body[1..].to_vec();
            b.extend(vec![b'x'; k]);
            segs.insert(i, seg(body[0] as usize, &b));
        }
        Grow::Fill(i) => segs.insert(i, Seg::new(K::Noise, vec![0xff; k])),
        Grow::Stray(i) => segs.insert(i, Seg::new(K::Noise, vec![body[0] & 0x7f; k])),
        Grow::Icc(i) => {
            let n = k.min(255);
            let v: Vec<Seg> = (0..n)
                .map(|j| {
                    let mut b = b"ICC_PROFILE\0".to_vec();
                    b.extend([(n - j) as u8, n as u8]);
                    b.extend(&body[1..]);
                    seg(0xe2, &b)
                })
                .collect();
            segs.splice(i..i, v);
        }
        Grow::Height | Grow::Width => {
            let f = segs.iter().position(|s| s.k == K::Sof).unwrap();
            let (p, d) = if g == Grow::Height { (5, im.h) } else { (7, im.w) };
            segs[f].bytes[p..p + 2].copy_from_slice(&((d * k) as u16).to_be_bytes());
            let (w, h) = if g == Grow::Height { (im.w, d * k) } else { (d * k, im.h) };
            // as many restart intervals as there are now, the first ones over and over
            for s in &mut segs {
                let K::Ecs(n) = s.k else { continue };
                let sc = &im.scans[n];
                if sc.ri == 0 {
                    continue;
                }
                let (uw, uh) = match (im.proc, &sc.comps[..]) {
                    (Proc::Lossless, _) => (1, 1),
                    (_, &[c]) => (8 * im.hmax / im.comps[c].h, 8 * im.vmax / im.comps[c].v),
                    _ => (8 * im.hmax, 8 * im.vmax),
                };
                let n = (w.div_ceil(uw) * h.div_ceil(uh)).div_ceil(sc.ri);
                let full = s.ivs.len().max(2) - 1;
                s.ivs = (0..n).map(|j| s.ivs[j % full].clone()).collect();
                s.join();
            }
        }
        Grow::Calls => {}
    }
    assemble(&segs)
}

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { max_w: 40, max_h: 40, wide: 20, huge: 0, mass: 0, ..Opt::any() };
    let mut im = generate(t, &o);
    note_image(&im);
    tr!("image: {}", describe(&im));
    let mut ecs = find(&im.segs, |k| matches!(k, K::Ecs(_)));
    // coefficients that are never completed are rendered at the end
    if im.proc == Proc::Progressive && ecs.len() > 1 && t.chance(1, 3) {
        let keep = 1 + t.draw(ecs.len() as u32 - 1) as usize;
        let end = im.segs.len() - 1;
        im.segs.drain(ecs[keep - 1] + 1..end);
        ecs.truncate(keep);
        tr!("only the first {} scans", keep);
    }
    let tabs = find(&im.segs, |k| matches!(k, K::Dqt | K::Dht | K::Dri));
    let place = |t: &mut crate::tape::Tape| {
        let ok: Vec<usize> = (1..im.segs.len()).filter(|&i| !matches!(im.segs[i].k, K::Ecs(_))).collect();
        *t.pick(&ok)
    };
    let mut body = vec![];
    let small = |t: &mut crate::tape::Tape, body: &mut Vec<u8>| {
        let (m, head): (u8, &[u8]) = *t.pick(&[(0xfe, b"" as &[u8]), (0xe9, b""), (0xe0, b"JFXX\0"), (0xe1, b"Exif\0\0"), (0xe1, b"http://ns.adobe.com/xap/1.0/\0"), (0xe2, b"MPF\0"), (0xed, b"Photoshop 3.0\0"), (0xee, b"Adobd\0"), (0xef, b"")]);
        *body = vec![m];
        body.extend(head);
    };
    let far = if t.chance(1, 2) { 30 } else { 200 };
    // k repetitions of g, then twice and 17 times as many
    let (g, k) = match t.weighted(&[4, if tabs.is_empty() { 0 } else { 3 }, 3, 2, 1, 1, 2, 5, 5, 2]) {
        0 => (Grow::Scan(*t.pick(&ecs)), 1 + t.draw(8) as usize),
        1 => (Grow::Table(*t.pick(&tabs)), 1 + t.draw(40) as usize),
        2 => {
            small(t, &mut body);
            (Grow::Small(place(t)), 1 + t.draw(200) as usize)
        }
        3 => {
            small(t, &mut body);
            (Grow::Long(place(t)), 1 + t.draw(3600) as usize)
        }
        4 => (Grow::Fill(place(t)), 1 + t.draw(3000) as usize),
        5 => {
            body = vec![t.draw(128) as u8];
            (Grow::Stray(place(t)), 1 + t.draw(3000) as usize)
        }
        6 => {
            body = vec![0];
            let n = t.draw(200) as usize;
            body.resize(1 + n, 7);
            (Grow::Icc(place(t)), 1 + t.draw(15) as usize)
        }
        7 => (Grow::Height, 1 + t.draw(far) as usize),
        8 => (Grow::Width, 1 + t.draw(far) as usize),
        _ => (Grow::Calls, 1 + t.draw(100) as usize),
    };
    let dims = |f: usize| match g {
        Grow::Height => (im.w, im.h * k * f),
        Grow::Width => (im.w * k * f, im.h),
        _ => (im.w, im.h),
    };
    let big = dims(17);
    if big.0 > 65535 || big.1 > 65535 || big.0 * big.1 > 400_000 {
        discard();
        return;
    }
    let mut plan = Plan::draw_benign(t);
    plan.eintr = 0;
    let mut ops: Vec<Op> = match g {
        Grow::Calls => vec![t.pick(&[Op::ReadInfo, Op::Scale(1, 1), Op::Scale(65535, 65535), Op::Info]).clone()],
        _ => vec![],
    };
    if t.chance(1, 3) {
        let (a, b) = draw_request(t, im.w, im.h);
        ops.insert(0, Op::Scale(a, b));
    }
    let caller = draw_caller(t);
    let pool = draw_pool(t);
    tr!("{:?} times {} with {:?}, calls {:?}", g, k, plan, ops);
    start(c, pool, WELL_FORMED_BUDGET * 4);
    nontrivial();
    cnt(C::FaultGrow);
    // the first decode, which also pays for what is made once in a process, is not counted
    let cost: Vec<([u64; 3], bool, usize)> = [TIMES[0]]
        .iter()
        .chain(&TIMES)
        .map(|f| {
            let data = Arc::new(grown(&im, g, k * f, &body));
            let mut calls = ops.clone();
            if g == Grow::Calls {
                let rep = ops.last().unwrap().clone();
                calls.extend((1..k * f).map(|_| rep.clone()));
            }
            calls.push(Op::Decode);
            sched::drain();
            let total = || mem::TOTAL.load(Relaxed) + mem::POOL_TOTAL.load(Relaxed);
            let (e0, m0) = (sched::edges(), total());
            let (reads, last) = on(caller, || {
                let mut s = Subj::new(&data, plan.clone());
                let mut last = Val::None;
                for op in &calls {
                    last = apply(&mut s, op);
                    check_no_panic(&last, "a call");
                }
                (s.src.st().reads, last)
            });
            sched::drain();
            let v = [sched::edges() - e0, total() - m0, reads];
            tr!("{} times: {} bytes -> {} steps, {} bytes allocated, {} reads, {}", k * f, data.len(), v[0], v[1], v[2], last.brief());
            (v, last.fail().is_none(), data.len())
        })
        .skip(1)
        .collect();
    check_worker_panics();
    // fixed multiples
    let n = im.comps.len();
    for (i, &(v, _, len)) in cost.iter().enumerate() {
        let (w, h) = dims(TIMES[i]);
        let (mx, my) = (w.div_ceil(8 * im.hmax), h.div_ceil(8 * im.vmax));
        let px = match im.proc {
            Proc::Lossless => w * h * n,
            _ => im.comps.iter().map(|c| 64 * mx * my * c.h * c.v).sum::<usize>() + w * h * n,
        };
        let scans = im.scans.len() + if let Grow::Scan(_) = g { k * TIMES[i] } else { 0 };
        let tables = tabs.len() + if let Grow::Table(_) = g { k * TIMES[i] } else { 0 };
        let calls = if g == Grow::Calls { k * TIMES[i] } else { 0 };
        let allow = [(80_000 + 40 * len + 12000 * tables + 60 * px * (scans + 1) + 400 * calls) as u64, (1_000_000 + 40 * len + 131072 * tables + 48 * px * (scans + 1)) as u64, (2 * len + 64) as u64];
        for j in 0..3 {
            if v[j] > allow[j] {
                violation("work", &format!("{} times {:?}: {} {} for {} bytes of data and {}x{} samples in {} scans, {} would be in proportion", k * TIMES[i], g, v[j], ["steps", "bytes allocated", "reads"][j], len, w, h, scans, allow[j]));
                return;
            }
        }
    }
    // growth; where all go the same way
    let threshold = |f: usize| dims(f).0 * dims(f).1 > 1 << 14;
    // and a frame has many units
    let coarse = match g {
        Grow::Height => dims(1).1 < 64 * im.vmax,
        Grow::Width => dims(1).0 < 64 * im.hmax,
        _ => false,
    };
    if cost.iter().all(|c| c.1) && threshold(1) == threshold(17) && !coarse {
        cnt(C::ProbeGrowth);
        for j in 0..2 {
            let d = |i: usize| cost[i].0[j].saturating_sub(cost[0].0[j]);
            let (mut slack, times) = [(60_000, 23), (300_000, 44)][j];
            // end-of-band runs may cover the first blocks beyond the data and not those further on
            if im.proc == Proc::Progressive && matches!(g, Grow::Height | Grow::Width) && j == 0 {
                slack += (12 * big.0 * big.1 * n * im.scans.len()) as u64;
            }
            if d(2) > slack + times * d(1) {
                violation("work-grows", &format!("{:?}: {} {} more for {} times, {} more for {} times", g, d(1), ["steps", "bytes allocated"][j], 2 * k, d(2), 17 * k));
                return;
            }
        }
    }
}
