//! How an image is coded does not change its pixels.
//!
//! The same coefficients (or lossless samples) are coded twice: process, scan script, interleaving, successive
//! approximation, restart intervals, Huffman tables, table slots and segment order differ. The results must be equal to
//! the last bit in every build: the reference model is not involved.
use super::common::*;
use crate::exec::{cnt, C};
use crate::jpeg::{recode, Image, Proc, Seg, K};
use crate::sched;
use crate::subject::*;
use crate::tape::Tape;
use crate::tr;

/// The same frame, but for the table slots.
fn like(a: &Image, b: &Image) -> bool {
    let sof = |im: &Image| {
        let mut s = im.segs.iter().find(|s| s.k == K::Sof).unwrap().bytes.clone();
        for i in 0..im.comps.len() {
            s[12 + 3 * i] = 0;
        }
        s
    };
    sof(a) == sof(b)
}

/// A scan whose coefficients no other scan refines arrives once more, with the tables it needs. It is a scan of
/// `donor`, which may group the components in another way.
fn resend(t: &mut Tape, im: &mut Image, donor: &Image) {
    let whole = |im: &Image| -> Vec<usize> { (0..im.scans.len()).filter(|&i| im.proc != Proc::Progressive || (im.scans[i].ah, im.scans[i].al) == (0, 0)).collect() };
    let from = whole(donor);
    if from.is_empty() {
        return;
    }
    let i = *t.pick(&from);
    let ecs = donor.segs.iter().position(|s| s.k == K::Ecs(i)).unwrap();
    let all_whole = whole(im).len() == im.scans.len();
    // behind the quantisation tables; behind all the scans if some of them refine others
    let first = im.segs.iter().rposition(|s| if all_whole { matches!(s.k, K::Sof | K::Dqt) } else { matches!(s.k, K::Sof | K::Dqt | K::Ecs(_)) }).unwrap();
    let at = {
        let ok: Vec<usize> = (first + 1..im.segs.len()).filter(|&k| !matches!(im.segs[k].k, K::Ecs(_))).collect();
        *t.pick(&ok)
    };
    let tables = |segs: &[Seg]| {
        let mut v = vec![Seg::marker(K::Dri, 0xdd, &[0, 0])];
        v.extend(segs.iter().filter(|s| matches!(s.k, K::Dht | K::Dri)).cloned());
        v
    };
    let mut again = tables(&donor.segs[..ecs]);
    again.extend(donor.segs[ecs - 1..=ecs].iter().cloned());
    again.extend(tables(&im.segs[..at]));
    im.segs.splice(at..at, again);
    cnt(C::FaultResend);
}

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let m = if c.thorough { 160 } else { 64 };
    let o = Opt { wide: 35, max_w: m, max_h: m, ..Opt::any() };
    let im = generate(t, &o);
    note_image(&im);
    let copies = 1 + t.weighted(&[4, 1]);
    let others: Vec<_> = (0..copies)
        .map(|_| {
            let mut x = recode(t, &im, &o);
            match t.weighted(&[4, 1, 2]) {
                0 => {}
                1 => {
                    let y = x.clone();
                    resend(t, &mut x, &y);
                }
                _ => {
                    let y = (0..4).map(|_| recode(t, &im, &o)).find(|y| like(&x, y));
                    if let Some(y) = y {
                        resend(t, &mut x, &y);
                    }
                }
            }
            x
        })
        .collect();
    let mut ops = vec![];
    if t.chance(1, 2) {
        let (a, b) = draw_request(t, im.w, im.h);
        ops.push(Op::Scale(a, b));
    }
    if t.chance(1, 5) {
        ops.push(Op::SetXf(draw_override(t, im.comps.len()).0));
    }
    ops.push(Op::Decode);
    let all: Vec<_> = std::iter::once(&im).chain(&others).collect();
    let sides: Vec<_> = all.iter().map(|i| (Arc::new(assemble(&i.segs)), if t.chance(1, 3) { Plan::draw_benign(t) } else { Plan::plain() }, draw_caller(t))).collect();
    let pool = draw_pool(t);
    for (i, s) in all.iter().zip(&sides) {
        tr!("image: {} {:?} {:?}", describe(i), s.1, s.2);
        tr_bytes("data", &s.0);
    }
    tr!("calls {:?} pool {}", ops, pool);
    start(c, pool, WELL_FORMED_BUDGET * 3);
    let got: Vec<Val> = sides
        .iter()
        .map(|(data, plan, caller)| {
            on(*caller, || {
                let mut s = Subj::new(data, plan.clone());
                run_ops(&mut s, &ops).pop().unwrap().val
            })
        })
        .collect();
    sched::drain();
    check_worker_panics();
    for (i, g) in all.iter().zip(&got) {
        check_no_panic(g, "decode");
        if let Some(f) = g.fail() {
            violation("refused", &format!("well-formed image fails: {}: {}", f.short(), describe(i)));
            return;
        }
    }
    nontrivial();
    cnt(C::ProbeRecoded);
    for (k, g) in got.iter().enumerate().skip(1) {
        let (Val::Px(Ok(a)), Val::Px(Ok(b))) = (&got[0], g) else { unreachable!() };
        if a != b {
            let bpp = if im.proc == Proc::Lossless && im.precision > 8 { 2 } else { 1 } * im.comps.len();
            let d = (0..a.len().min(b.len())).find(|&i| a[i] != b[i]);
            violation("coding", &format!("{} and {} bytes, first difference at sample {:?} ({:?} and {:?}): {} against {}", a.len(), b.len(), d.map(|i| i / bpp), d.map(|i| a[i]), d.map(|i| b[i]), describe(all[0]), describe(all[k])));
            return;
        }
    }
}
