//! Damaged data is contained.
use super::common::*;
use super::damage::any_bytes;
use crate::exec::{cnt, C};
use crate::mem;
use crate::subject::*;
use crate::tr;
use std::sync::atomic::Ordering::*;

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { tame: false, max_w: 40, max_h: 40, wide: 20, ..Opt::any() };
    let b = any_bytes(t, &o, 92, if c.thorough { 1_500_000 } else { 400_000 });
    let mut ops = draw_ops(t, b.im.w, b.im.h, true);
    for _ in 0..t.weighted(&[4, 1, 1]) {
        ops.push(match t.draw(4) {
            0 => Op::Decode,
            1 => Op::ReadInfo,
            2 => Op::Scale(1 + t.draw(60) as u16, 1 + t.draw(60) as u16),
            _ => Op::Decode,
        });
    }
    if t.chance(1, 8) {
        ops.insert(0, Op::SetMax(t.draw(20_000) as usize));
    }
    let plan = if t.chance(1, 3) { Plan::draw_benign(t) } else { Plan::plain() };
    let caller = draw_caller(t);
    let pool = draw_pool(t);
    let guard = t.weighted(&[5, 2, 1]) as u32;
    tr!("calls: {:?}", ops);
    tr_bytes("data", &b.data);
    start(c, pool, 2_500_000_000);
    mem::JUNK.store(true, Relaxed);
    mem::GUARD.store(guard, Relaxed);
    if guard > 0 {
        cnt(C::ProbeGuarded);
    }
    let data = Arc::new(b.data.clone());
    on(caller, || {
        let mut s = Subj::new(&data, plan.clone());
        for op in &ops {
            let v = apply(&mut s, op);
            tr!("{:?} -> {}", op, v.brief());
            if let Some(Fail::Panic(m)) = v.fail() {
                violation("panic", &format!("{:?} panicked: {}", op, m));
                return;
            }
            nontrivial();
            match v.fail() {
                Some(_) => cnt(C::ProbeDamageDetected),
                None => cnt(C::ProbeDamageSurvived),
            }
            let st = look(&mut s, v);
            if let (Val::Px(Ok(px)), Some(i)) = (&st.val, st.info) {
                let want = i.0 as usize * i.1 as usize * bpp_of(i.2);
                if px.len() != want {
                    violation(size_class(&b, px.len(), want, i.2, i.3), &format!("decode returned {} bytes, the image info {:?} implies {}", px.len(), i, want));
                }
            }
        }
    });
    check_worker_panics();
}
