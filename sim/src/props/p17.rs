//! Memory stays in proportion to the frame under every schedule.
use super::common::*;
use super::damage::mutate_bytes;
use super::p02::draw_err;
use crate::exec::{cnt, C};
use crate::jpeg::{Proc, Seg, K};
use crate::mem;
use crate::sched;
use crate::subject::*;
use crate::tr;
use std::sync::atomic::Ordering::*;

/// The decoder itself, the segment being read, channels and queues.
const FIXED: usize = 192 << 10;

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { max_w: 48, max_h: 48, wide: 55, mass: 0, ..Opt::any() };
    let im = generate(t, &o);
    note_image(&im);
    tr!("image: {}", describe(&im));
    let mut segs = im.segs.clone();
    // More of everything than the frame has room for: nothing of it may pile up.
    for _ in 0..t.weighted(&[2, 3, 2, 1]) {
        match t.weighted(&[4, 2, 2, 1]) {
            0 => {
                let scans = find(&segs, |k| matches!(k, K::Ecs(_)));
                let e = *t.pick(&scans);
                let sos = (0..e).rev().find(|&i| matches!(segs[i].k, K::Sos(..)));
                if let Some(sos) = sos {
                    let m = if t.chance(1, 4) { 30 } else { 4 };
                    let n = 1 + t.draw(m) as usize;
                    let one: Vec<Seg> = segs[sos..=e].to_vec();
                    for _ in 0..n {
                        segs.splice(e + 1..e + 1, one.iter().cloned());
                    }
                    tr!("scan at {} repeated {} times", sos, n);
                    cnt(C::FaultSegDup);
                }
            }
            1 => {
                let tabs = find(&segs, |k| matches!(k, K::Dqt | K::Dht | K::Dri));
                if !tabs.is_empty() {
                    let i = *t.pick(&tabs);
                    let m = *t.pick(&[20, 20, 20, 300, 300, 4000]);
                    let n = 1 + t.draw(m) as usize;
                    let one = segs[i].clone();
                    segs.splice(i..i, (0..n).map(|_| one.clone()));
                    tr!("table {:?} repeated {} times", one.k, n);
                    cnt(C::FaultSegDup);
                }
            }
            2 => {
                let n = 1 + t.draw(20) as usize;
                let len = t.draw(65533) as usize;
                let s = if t.chance(1, 2) { Seg::marker(K::Com, 0xfe, &vec![0x20; len]) } else { Seg::marker(K::App(9), 0xe9, &vec![0x20; len]) };
                let at = 1 + t.draw(segs.len() as u32 - 1) as usize;
                if !matches!(segs[at].k, K::Ecs(_)) {
                    segs.splice(at..at, (0..n).map(|_| s.clone()));
                    tr!("{} segments of {} bytes inserted at {}", n, len, at);
                    cnt(C::FaultNoiseSeg);
                }
            }
            _ => {
                // the last of many counts
                let n = 1 + t.draw(30) as usize;
                let len = 8 + t.draw(3000) as usize;
                let mut b = b"Exif\0\0".to_vec();
                b.resize(len, 1);
                segs.splice(1..1, (0..n).map(|_| Seg::marker(K::App(1), 0xe1, &b)));
                tr!("{} Exif segments of {} bytes", n, len);
                cnt(C::FaultSegDup);
            }
        }
    }
    // What metadata accessors hand out has to be kept: ICC chunks all of them, of the rest the last.
    let app = |n: u8| segs.iter().filter(move |s| s.k == K::App(n)).map(|s| s.bytes.len() + 64);
    let kept = app(2).sum::<usize>() + 4 * app(1).max().unwrap_or(0) + 2 * app(13).max().unwrap_or(0);
    let sof = segs.iter().position(|s| s.k == K::Sof).unwrap();
    let fixed = offsets(&segs)[sof + 1];
    let mut data = assemble(&segs);
    if t.chance(1, 5) {
        let mut tail = data.split_off(fixed);
        mutate_bytes(t, &mut tail, &|_| vec![0xff, 0xd9]);
        // no second frame
        for i in 1..tail.len() {
            if tail[i - 1] == 0xff && (0xc0..=0xcf).contains(&tail[i]) && tail[i] != 0xc4 && tail[i] != 0xcc {
                tail[i] = 0;
            }
        }
        data.extend(tail);
    }
    let mut plan = if t.chance(1, 3) { Plan::draw_benign(t) } else { Plan::plain() };
    match t.weighted(&[7, 1, 1, 1]) {
        0 => {}
        1 => plan = plan.with(draw_pos(t, &segs, data.len()), Fault::Panic),
        2 => {
            let off = draw_pos(t, &segs, data.len());
            plan = plan.with(off, draw_err(t));
        }
        _ => plan = plan.with(draw_pos(t, &segs, data.len()), Fault::Eof),
    }
    let mut ops = draw_ops(t, im.w, im.h, false);
    ops.retain(|o| !matches!(o, Op::SetMax(_)));
    let caller = draw_caller(t);
    let pool = draw_pool(t);
    tr!("calls {:?} plan {:?}", ops, plan.chunk);
    tr_bytes("data", &data);
    start(c, pool, WELL_FORMED_BUDGET * 4);
    mem::reset_peak();
    let live0 = mem::LIVE.load(Relaxed);
    nontrivial();
    // Coefficients, rows under way to the workers, planes, samples of the result.
    let out = im.w * im.h * im.comps.len();
    let allow = FIXED
        + 2 * kept
        + match im.proc {
            Proc::Lossless => 20 * out,
            _ => 6 * 64 * im.coefs.iter().map(|c| c.len()).sum::<usize>() + 2 * out,
        };
    let data = Arc::new(data);
    on(caller, || {
        let mut s = Subj::new(&data, plan.clone());
        for op in &ops {
            let v = apply(&mut s, op);
            tr!("{:?} -> {}", op, v.brief());
        }
    });
    let peak = (mem::PEAK.load(Relaxed) - live0) as usize;
    tr!("peak {} allowed {} data {}", peak, allow, data.len());
    if peak > allow {
        violation("memory-grows", &format!("the decoder held {} bytes at once for a frame of {}x{} with {} components in {} bytes of data, {} would be in proportion", peak, im.w, im.h, im.comps.len(), data.len(), allow));
    }
    sched::drain();
    check_worker_panics();
}
