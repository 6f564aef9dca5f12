//! A failed decoder never passes off damaged pixels.
use super::common::*;
use super::damage::any_bytes;
use super::p02::draw_err;
use crate::exec::{cnt, C};
use crate::jpeg::{Seg, K};
use crate::sched;
use crate::subject::*;
use crate::tr;

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { max_w: 44, max_h: 44, wide: 20, procs: [4, 1, 5, 3], restart: [1, 1], ..Opt::any() };
    let b = any_bytes(t, &o, 12, 120_000);
    let (im, segs) = (&b.im, &b.segs);
    let mut data = b.data.clone();
    let end = data.len();
    // what follows the image on the stream
    for _ in 0..t.weighted(&[2, 3, 1, 1]) {
        match t.draw(6) {
            0 => {
                let n = 1 + t.draw(200) as usize;
                data.extend(t.seed().bytes(n));
            }
            1 => data.extend([0xff, 0xd9]),
            2 | 3 => {
                // scans of the same image once more
                let v = find(&im.segs, |k| matches!(k, K::Sos(_)));
                let from = v[t.draw(v.len() as u32) as usize];
                data.extend(assemble(&im.segs[from..]));
            }
            4 => data.extend(assemble(&im.segs[1..])),
            _ => data.extend(assemble(&im.segs)),
        }
    }
    let before = data.len();
    // a picture within the picture: an embedded preview, before which the source may fail
    let mut preview = None;
    if t.chance(1, 6) {
        let small = generate(t, &Opt { max_w: 9, max_h: 9, wide: 0, mass: 0, ..Opt::any() });
        let mut b = (*t.pick(&[&b"Exif\0\0"[..], b"JFXX\0\x10", b"any"])).to_vec();
        let at = 6 + b.len();
        b.extend(assemble(&small.segs));
        if b.len() < 65000 && data.len() > 2 {
            let k = *t.pick(&[0u8, 1, 5]);
            data.splice(2..2, Seg::marker(K::App(k), 0xe0 + k, &b).bytes);
            tr!("preview of {}x{} at {}", small.w, small.h, at);
            preview = Some(at);
        }
    }
    let end = end + data.len() - before;
    let mut plan = if t.chance(1, 3) { Plan::draw_benign(t) } else { Plan::plain() };
    for _ in 0..t.weighted(&[2, 6, 2, 1]) {
        let off = if preview.is_some() && t.chance(1, 2) { preview.unwrap() } else if t.chance(3, 4) { draw_pos(t, segs, end) } else { t.draw(data.len() as u32 + 1) as usize };
        let f = match t.weighted(&[4, 2, 2]) {
            0 => match draw_err(t) {
                Fault::Err { kind, id, raw, .. } => Fault::Err { kind, id, raw, persistent: false },
                f => f,
            },
            1 => Fault::EofOnce,
            _ => Fault::Panic,
        };
        tr!("source at {}: {:?}", off, f);
        plan = plan.with(off, f);
    }
    // one failure after the other, and calls without end
    let many = t.chance(1, 30);
    if many {
        let n = if t.chance(2, 3) { 0 } else { t.draw(60) };
        for _ in 0..n {
            let off = t.draw(end as u32 + 1) as usize;
            let f = match t.draw(3) {
                0 => Fault::EofOnce,
                _ => match draw_err(t) {
                    Fault::Err { kind, id, raw, .. } => Fault::Err { kind, id, raw, persistent: false },
                    f => f,
                },
            };
            plan = plan.with(off, f);
        }
        tr!("{} more faults", n);
    }
    let mut ops = draw_ops(t, im.w, im.h, false);
    for _ in 0..1 + t.weighted(&[3, 2, 2, 1, 1]) {
        match t.weighted(&[5, 2, 2, 1, 1]) {
            0 => ops.push(Op::Decode),
            1 => ops.push(Op::ReadInfo),
            2 => {
                let (a, b) = draw_request(t, im.w, im.h);
                ops.push(Op::Scale(a, b));
            }
            3 => ops.push(Op::SetXf(draw_override(t, im.comps.len()).0)),
            _ => ops.push(Op::Meta),
        }
    }
    ops.push(Op::Decode);
    if many {
        let op = [Op::Decode, Op::Decode, Op::Decode, Op::ReadInfo][t.draw(4) as usize].clone();
        let times = if t.chance(1, 2) { 252 + t.draw(6) as usize } else { 1 + t.draw(600) as usize };
        let at = t.draw(ops.len() as u32 + 1) as usize;
        ops.splice(at..at, std::iter::repeat_n(op, times));
        ops.push(Op::Decode);
    }
    // failures that are not the source's: a limit that is raised, a colour transform that is replaced
    match t.weighted(&[6, 2, 1]) {
        0 => {}
        1 => {
            let full = im.w * im.h * im.comps.len() * if im.precision > 8 { 2 } else { 1 };
            let low = t.draw(full as u32 + 1) as usize;
            let at = ops.iter().position(|o| *o == Op::Decode).unwrap();
            let k = t.draw(at as u32 + 1) as usize;
            ops.insert(at + 1, Op::SetMax(usize::MAX));
            ops.insert(k, Op::SetMax(low));
        }
        _ => {
            let at = ops.iter().position(|o| *o == Op::Decode).unwrap();
            let k = draw_override(t, im.comps.len()).0;
            ops.insert(at + 1, Op::SetXf(k));
            ops.insert(at, Op::SetXf(*t.pick(&[ColorTransform::JcsBgYcc, ColorTransform::JcsBgRgb, ColorTransform::Unknown, ColorTransform::Grayscale, ColorTransform::YCCK, ColorTransform::RGB])));
        }
    }
    let caller = draw_caller(t);
    let roam = if many { vec![] } else { draw_roam(t, ops.len()) };
    // (a pool thread must not wait for another thread that needs the pool)
    let caller = if roam.is_empty() { caller } else { Caller::Main };
    let pool = draw_pool(t);
    tr!("calls {:?}; {:?}", ops, plan.chunk);
    tr_bytes("data", &data);
    let data = Arc::new(data);
    start(c, pool, WELL_FORMED_BUDGET * 2);
    let got = on(caller, || {
        let mut s = Subj::new(&data, plan.clone());
        ops.iter()
            .enumerate()
            .map(|(i, op)| {
                let v = apply_roam(&roam, i, &mut s, op);
                check_no_panic(&v, "a call after a failure");
                tr!("{:?} -> {}", op, v.brief());
                v
            })
            .collect::<Vec<_>>()
    });
    check_worker_panics();
    sched::quiet(true);
    let mut failed = false;
    for (i, v) in got.iter().enumerate() {
        if let Val::Px(r) = v {
            if failed {
                cnt(C::ProbeRetry);
                nontrivial();
            }
            if let Ok(px) = r {
                // settings in effect: the last colour override, the last scale that was accepted
                let mut plain: Vec<Op> = vec![];
                let pre = || (0..i).rev();
                if let Some(k) = pre().find(|&k| matches!(ops[k], Op::SetXf(_))) {
                    plain.push(ops[k].clone());
                }
                if let Some(k) = pre().find(|&k| matches!(got[k], Val::Size(Ok(_)))) {
                    plain.push(ops[k].clone());
                }
                plain.push(Op::Decode);
                let mut s = Subj::new(&data, Plan::plain());
                let base = run_ops(&mut s, &plain).pop().unwrap().val;
                if base != *v {
                    violation(
                        if failed { "passed-off" } else { "first-decode" },
                        &format!("call {} ({:?}) of {:?} returned {} bytes; an undisturbed decoder gives {}", i, ops[i], ops, px.len(), base.brief()),
                    );
                }
            }
            failed = true; // after a decode, successful or not, the decoder is used up
        } else if v.fail().is_some() {
            failed = true;
        }
    }
}
