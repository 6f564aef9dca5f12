//! Noise between segments is ignored.
use super::common::*;
use crate::exec::{cnt, C};
use crate::jpeg::{Seg, K};
use crate::sched;
use crate::subject::*;
use crate::tape::Tape;
use crate::tr;

fn fill(t: &mut Tape) -> Vec<u8> {
    let n = match t.weighted(&[400, 100, 98, 2]) {
        0 => 1 + t.draw(4),
        1 => 1 + t.draw(20),
        2 => 1 + t.draw(600),
        _ => 1 + t.draw(140_000),
    };
    cnt(C::FaultNoiseFill);
    vec![0xff; n as usize]
}

fn noise(t: &mut Tape, after_ecs: bool) -> Seg {
    let body = |t: &mut Tape| {
        let n = match t.weighted(&[4, 2, 1]) {
            0 => t.draw(40),
            1 => t.draw(600),
            _ => 65533 - t.draw(4),
        } as usize;
        let mut r = t.seed();
        let mut b = if t.chance(1, 4) { vec![0xff; n] } else { r.bytes(n) };
        if t.chance(1, 4) {
            let m = b"\xff\xd9\xff\xd8\xff\xda\0\x02\xff\xc4\xff\xd0";
            for (x, y) in b.iter_mut().zip(m) {
                *x = *y;
            }
        }
        b
    };
    match t.weighted(&[3, 3, 2, if after_ecs { 6 } else { 0 }]) {
        0 => {
            cnt(C::FaultNoiseSeg);
            match t.weighted(&[5, 1, 1, 1, 3]) {
                4 => {
                    let (k, b) = near_miss(t);
                    Seg::marker(K::App(k), 0xe0 + k, &b)
                }
                0 => {
                    let k = *t.pick(&[3u8, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15]);
                    let b = body(t);
                    Seg::marker(K::App(k), 0xe0 + k, &b)
                }
                1 => {
                    let k = *t.pick(&[0u8, 1, 2, 13, 14]);
                    let mut b = body(t);
                    b.truncate(65533 - 8);
                    b.splice(0..0, b"NOTHING\0".iter().copied());
                    Seg::marker(K::App(k), 0xe0 + k, &b)
                }
                2 => {
                    // too short for anything that is known
                    let k = *t.pick(&[0u8, 1, 2, 13, 14]);
                    let b = &b"Adobe\0\x64\0\0\0\0"[..t.draw(5) as usize];
                    Seg::marker(K::App(k), 0xe0 + k, b)
                }
                _ => {
                    let k = *t.pick(&[0u8, 14]);
                    let b: &[u8] = *t.pick(&[&b"JFXX\0\x10\xff\xd8\xff\xd9"[..], b"Adobd\0\x64\0\0\0\0\x07", b"JFIF \x01\x02", b"AVI2\0\0\0"]);
                    Seg::marker(K::App(k), 0xe0 + k, b)
                }
            }
        }
        1 => {
            cnt(C::FaultNoiseCom);
            let b = body(t);
            Seg::marker(K::Com, 0xfe, &b)
        }
        2 => {
            // bytes without a marker: anything but FF, and FF followed by zero
            cnt(C::FaultNoiseBytes);
            let m = match t.weighted(&[300, 97, 3]) {
                0 => 12,
                1 => 300,
                _ => 140_000,
            };
            let n = 1 + t.draw(m) as usize;
            let mut r = t.seed();
            let mut v = vec![];
            for b in r.bytes(n) {
                v.push(b);
                if b == 0xff {
                    v.push(0);
                }
            }
            if t.chance(1, 3) {
                v.extend([0xff, 0]);
            }
            Seg::new(K::Noise, v)
        }
        _ => {
            cnt(C::FaultNoiseRst);
            let n = t.draw(8) as u8;
            Seg::new(K::Noise, vec![0xff, 0xd0 + n])
        }
    }
}

fn stray_rst(s: &Seg) -> bool {
    s.k == K::Noise && matches!(s.bytes[..], [0xff, 0xd0..=0xd7])
}

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { max_w: 40, max_h: 40, wide: 15, restart: [1, 1], ..Opt::any() };
    let im = generate(t, &o);
    note_image(&im);
    tr!("image: {}", describe(&im));
    let mut segs = im.segs.clone();
    let n = 1 + t.weighted(&[4, 2, 2, 1, 1]);
    let mut rst_after: Vec<usize> = vec![];
    for _ in 0..n {
        if t.chance(1, 3) {
            // fill bytes before a marker that is there, also before the markers inside a scan
            let with: Vec<usize> = (1..segs.len()).filter(|&i| matches!(segs[i].k, K::Ecs(_)) && segs[i].ivs.len() > 1).collect();
            if !with.is_empty() && t.chance(1, 2) {
                let i = *t.pick(&with);
                let b = &segs[i].bytes;
                let at: Vec<usize> = (0..b.len() - 1).filter(|&k| b[k] == 0xff && (0xd0..0xd8).contains(&b[k + 1])).collect();
                if at.is_empty() {
                    continue;
                }
                let p = *t.pick(&at);
                let f = fill(t);
                tr!("{} fill bytes before the restart marker at {} of segment {}", f.len(), p, i);
                segs[i].bytes.splice(p..p, f);
            } else {
                let at: Vec<usize> = (1..segs.len()).filter(|&i| !matches!(segs[i].k, K::Ecs(_) | K::Noise)).collect();
                let i = *t.pick(&at);
                let f = fill(t);
                tr!("{} fill bytes before segment {} ({:?})", f.len(), i, segs[i].k);
                segs[i].bytes.splice(0..0, f);
            }
        } else {
            let at: Vec<usize> = (1..segs.len()).filter(|&i| !matches!(segs[i].k, K::Ecs(_)) && !stray_rst(&segs[i])).collect();
            let i = *t.pick(&at);
            // one stray restart marker per scan, directly after its data
            let ecs = match segs[i - 1].k {
                K::Ecs(s) if !rst_after.contains(&s) => Some(s),
                _ => None,
            };
            let s = noise(t, ecs.is_some());
            if let (Some(e), true) = (ecs, stray_rst(&s)) {
                rst_after.push(e);
            }
            tr!("{:?} {} bytes before segment {} ({:?}): {}", s.k, s.bytes.len(), i, segs[i].k, hexs(&s.bytes[..s.bytes.len().min(30)]));
            if !stray_rst(&s) && t.chance(1, 150) {
                // very often
                let most = if s.bytes.len() > 2000 { 60 } else { 2500 };
                let times = 2 + t.draw(most) as usize;
                tr!("{} times", times);
                segs.splice(i..i, std::iter::repeat_n(s, times));
            } else {
                segs.insert(i, s);
            }
        }
    }
    let data = Arc::new(assemble(&segs));
    let plain = Arc::new(assemble(&im.segs));
    let mut ops = vec![];
    if t.chance(1, 3) {
        let (a, b) = draw_request(t, im.w, im.h);
        ops.push(Op::Scale(a, b));
    } else if t.chance(1, 3) {
        ops.push(Op::ReadInfo);
    }
    ops.push(Op::Decode);
    let plan = if t.chance(1, 3) { Plan::draw_benign(t) } else { Plan::plain() };
    let caller = draw_caller(t);
    let pool = draw_pool(t);
    tr!("calls {:?}", ops);
    tr_bytes("data", &data);
    start(c, pool, WELL_FORMED_BUDGET);
    sched::quiet(true);
    let base = {
        let mut s = Subj::new(&plain, Plan::plain());
        run_ops(&mut s, &ops)
    };
    sched::quiet(false);
    nontrivial();
    let got = on(caller, || {
        let mut s = Subj::new(&data, plan.clone());
        run_ops(&mut s, &ops)
    });
    check_worker_panics();
    for (k, (a, b)) in base.iter().zip(&got).enumerate() {
        check_no_panic(&b.val, "a call");
        let mut b = b.clone();
        if k + 1 == base.len() && b.val.fail().is_none() && b.pos != data.len() {
            violation("noise-position", &format!("{} of {} bytes were taken", b.pos, data.len()));
        }
        b.pos = a.pos;
        if let Some(d) = a.diff(&b) {
            violation("noise", &format!("{:?} without vs with noise: {}", ops[k], d));
            break;
        }
    }
}
