//! Call histories are equivalent to their plain form.
use super::common::*;
use super::p02::draw_err;
use crate::jpeg::{Image, Proc};
use crate::model;
use crate::sched;
use crate::subject::*;
use crate::tr;

pub fn expected_info(im: &Image, s: usize) -> (u16, u16, &'static str, &'static str) {
    let s = if im.proc == Proc::Lossless { 8 } else { s };
    (
        (im.w * s).div_ceil(8) as u16,
        (im.h * s).div_ceil(8) as u16,
        match (im.comps.len(), im.precision) {
            (1, 0..=8) => "L8",
            (1, _) => "L16",
            (3, _) => "RGB24",
            _ => "CMYK32",
        },
        match im.proc {
            Proc::Baseline | Proc::Extended => "sequential",
            Proc::Progressive => "progressive",
            Proc::Lossless => "lossless",
        },
    )
}

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { max_w: 50, max_h: 50, wide: 15, ..Opt::any() };
    let im = generate(t, &o);
    note_image(&im);
    tr!("image: {}", describe(&im));
    let data = Arc::new(assemble(&im.segs));
    let n = im.comps.len();
    let size = im.w * im.h * n * if im.precision > 8 { 2 } else { 1 };
    // a history
    let mut ops = vec![];
    let len = t.weighted(&[1, 2, 2, 2, 2, 1, 1, 1]);
    for _ in 0..len {
        ops.push(match t.weighted(&[3, 4, 2, 2, 2, 1]) {
            0 => Op::ReadInfo,
            1 => {
                let (a, b) = draw_request(t, im.w, im.h);
                Op::Scale(a, b)
            }
            2 => Op::Info,
            3 => Op::Meta,
            4 => {
                if t.chance(3, 4) {
                    Op::SetXf(draw_override(t, n).0)
                } else {
                    Op::SetXf(*t.pick(&ALL_XF))
                }
            }
            _ => Op::SetMax(match t.draw(4) {
                0 => usize::MAX,
                1 => size,
                2 => size.saturating_sub(1),
                _ => t.draw(size as u32 + 10) as usize,
            }),
        });
    }
    if !ops.is_empty() && t.chance(1, 60) {
        // one call over and over
        let i = t.draw(ops.len() as u32) as usize;
        let o = ops[i].clone();
        let times = 2 + t.draw(600) as usize;
        ops.splice(i..i, std::iter::repeat_n(o, times));
    }
    ops.push(Op::Decode);
    for _ in 0..t.weighted(&[3, 1, 1]) {
        ops.push(match t.draw(3) {
            0 => Op::Decode,
            1 => Op::Info,
            _ => Op::ReadInfo,
        });
    }
    let dec = ops.iter().position(|o| *o == Op::Decode).unwrap();
    // its plain form
    let mut plain = vec![];
    for f in [
        |o: &Op| matches!(o, Op::SetXf(_)),
        |o: &Op| matches!(o, Op::SetMax(_)),
        |o: &Op| matches!(o, Op::Scale(..)),
    ] {
        if let Some(x) = ops[..dec].iter().rev().find(|o| f(o)) {
            plain.push(x.clone());
        }
    }
    plain.push(Op::Decode);
    let mut plan = if t.chance(1, 2) { Plan::draw_benign(t) } else { Plan::plain() };
    let fault = if t.chance(1, 5) {
        let off = draw_pos(t, &im.segs, data.len());
        let f = if t.chance(1, 2) { draw_err(t) } else { Fault::Panic };
        tr!("source fails at {}: {:?}", off, f);
        plan = plan.with(off, f);
        true
    } else {
        false
    };
    let caller = draw_caller(t);
    let roam = draw_roam(t, ops.len());
    // (a pool thread must not wait for another thread that needs the pool)
    let caller = if roam.is_empty() { caller } else { Caller::Main };
    let pool = draw_pool(t);
    tr!("history {:?}; plain form {:?}", ops, plain);
    tr_bytes("data", &data);
    start(c, pool, WELL_FORMED_BUDGET);
    sched::quiet(true);
    let base = {
        let mut s = Subj::new(&data, Plan::plain());
        run_ops(&mut s, &plain).pop().unwrap()
    };
    sched::quiet(false);
    nontrivial();
    on(caller, || {
        let mut s = Subj::new(&data, plan.clone());
        let mut want: Option<(u16, u16, &str, &str)> = None;
        let mut failed = false;
        let before = look(&mut s, Val::None);
        if before.info.is_some() {
            violation("info-early", "info() is available before anything was read");
        }
        for (i, op) in ops.iter().enumerate() {
            let had = s.info().ok().flatten().map(|x| info_tuple(&x));
            let v = apply_roam(&roam, i, &mut s, op);
            let st = look(&mut s, v);
            tr!("{:?} -> {} info {:?}", op, st.val.brief(), st.info);
            check_no_panic(&st.val, "a call");
            if st.val.fail().is_some() {
                failed = true;
                if had.is_some() && st.info != had {
                    violation("info-changed", &format!("failing {:?} changed info from {:?} to {:?}", op, had, st.info));
                }
            } else {
                match op {
                    Op::ReadInfo => want = want.or(Some(expected_info(&im, 8))),
                    Op::Decode => want = want.or(Some(expected_info(&im, 8))),
                    Op::Scale(a, b) => {
                        let s = model::choose_scale(im.w, im.h, *a as usize, *b as usize);
                        want = Some(expected_info(&im, s));
                        if let Val::Size(Ok(z)) = st.val {
                            if Some(z) != want.map(|w| (w.0, w.1)) {
                                violation("scale", &format!("{:?} returned {:?}, expected {:?}", op, z, want));
                            }
                        }
                    }
                    _ => {}
                }
            }
            if let Some(w) = want {
                if st.info != Some(w) {
                    violation("info", &format!("after {:?} info is {:?}, expected {:?}", op, st.info, w));
                }
            } else if !failed && !matches!(op, Op::ReadInfo | Op::Decode | Op::Scale(..)) && st.info.is_some() {
                violation("info-early", "info() is available before anything was read");
            }
            if i == dec && !fault {
                if let Some(d) = base.diff(&st) {
                    violation("history", &format!("plain form {:?} vs history {:?}: {}", plain, &ops[..=dec], d));
                }
            }
        }
    });
    check_worker_panics();
}
