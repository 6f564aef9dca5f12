//! Delivery transparency.
use super::common::*;
use super::damage::any_bytes;
use crate::sched;
use crate::subject::*;
use crate::tr;

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let big = c.thorough;
    let b = any_bytes(t, &Opt { max_w: if big { 90 } else { 40 }, max_h: if big { 90 } else { 40 }, wide: 15, ..Opt::any() }, 40, 150_000);
    let mut ops = draw_ops(t, b.im.w, b.im.h, true);
    if t.chance(1, 6) {
        ops.push(Op::Decode);
    }
    let n = 1 + t.draw(3) as usize;
    let plans: Vec<Plan> = (0..n).map(|_| {
        let mut p = Plan::draw_benign(t);
        for _ in 0..t.weighted(&[3, 2, 1]) {
            let off = draw_pos(t, &b.segs, b.data.len());
            let f = if t.chance(1, 2) { Fault::Eintr(1 + t.draw(20)) } else { Fault::Stall((1 + t.draw(1 << 30) as u64) << t.draw(13)) };
            p = p.with(off, f);
        }
        p
    }).collect();
    let caller = draw_caller(t);
    let pool = draw_pool(t);
    tr!("calls: {:?}", ops);
    tr_bytes("data", &b.data);
    start(c, pool, WELL_FORMED_BUDGET * 2);
    let data = Arc::new(b.data.clone());
    sched::quiet(true);
    let base = {
        let mut s = Subj::new(&data, Plan::plain());
        run_ops(&mut s, &ops)
    };
    sched::quiet(false);
    for st in &base {
        tr!("plain delivery: {} pos {}", st.val.brief(), st.pos);
        check_no_panic(&st.val, "a call");
    }
    for p in &plans {
        let got = on(caller, || {
            let mut s = Subj::new(&data, p.clone());
            run_ops(&mut s, &ops)
        });
        nontrivial();
        for (i, (a, g)) in base.iter().zip(&got).enumerate() {
            if let Some(d) = a.diff(g) {
                tr!("plan {:?}", p);
                violation("delivery", &format!("call {} ({:?}) depends on how the bytes are delivered: {} (plan {:?}, calls {:?})", i, ops[i], d, p.chunk, ops));
            }
        }
    }
}
