//! A decoder takes exactly the bytes of its image.
use super::common::*;
use super::p02::draw_err;
use crate::exec::{cnt, C};
use crate::jpeg::K;
use crate::sched;
use crate::subject::*;
use crate::tr;

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { max_w: 40, max_h: 40, wide: 15, ..Opt::any() };
    let k = 1 + t.weighted(&[3, 3, 1]);
    let ims: Vec<_> = (0..k).map(|_| generate(t, &o)).collect();
    let mut data = vec![];
    let mut ends = vec![];
    let mut heads = vec![];
    for im in &ims {
        note_image(im);
        tr!("image: {}", describe(im));
        let i = im.segs.iter().position(|s| s.k == K::Sof).unwrap();
        heads.push(data.len() + offsets(&im.segs)[i + 1]);
        data.extend(assemble(&im.segs));
        ends.push(data.len());
    }
    if t.chance(1, 3) {
        let n = t.draw(60) as usize;
        data.extend(t.seed().bytes(n));
    }
    // per image: calls before decode
    let pre: Vec<Vec<Op>> = ims
        .iter()
        .map(|im| {
            let mut v = draw_ops(t, im.w, im.h, false);
            v.pop();
            v
        })
        .collect();
    let mut plan = Plan::draw_benign(t);
    let stop = t.draw(2 * k as u32) as usize; // a fault at the end of this needed part
    let what = t.weighted(&[3, 2, 2, 2, 1]);
    let end = if stop % 2 == 0 { ends[stop / 2] } else { heads[stop / 2] };
    let mut last_image = k; // decode only up to the fault
    let mut stop_at_head = false;
    if what > 0 {
        let f = match what {
            1 => Fault::Block,
            2 => draw_err(t),
            3 => Fault::Panic,
            _ => Fault::Eof,
        };
        tr!("after byte {}: {:?}", end, f);
        plan = plan.with(end, f);
        last_image = stop / 2 + 1;
        stop_at_head = stop % 2 == 1;
    }
    let caller = draw_caller(t);
    let pool = draw_pool(t);
    tr!("calls before decode: {:?}", pre);
    tr_bytes("data", &data);
    start(c, pool, WELL_FORMED_BUDGET * 2);
    let data = Arc::new(data);
    sched::quiet(true);
    let base: Vec<Step> = (0..k)
        .map(|i| {
            let from = if i == 0 { 0 } else { ends[i - 1] };
            let d = Arc::new(data[from..ends[i]].to_vec());
            let mut s = Subj::new(&d, Plan::plain());
            let mut ops = pre[i].clone();
            ops.push(Op::Decode);
            run_ops(&mut s, &ops).pop().unwrap()
        })
        .collect();
    sched::quiet(false);
    nontrivial();
    on(caller, || {
        let src = crate::reader::source(data.clone(), plan.clone());
        for i in 0..last_image {
            let mut s = Subj::from_source(src.clone());
            let head_only = stop_at_head && i + 1 == last_image;
            let mut ops = pre[i].clone();
            if head_only && ops.is_empty() {
                ops.push(Op::ReadInfo);
            }
            for op in &ops {
                let v = apply(&mut s, op);
                let st = look(&mut s, v);
                tr!("image {} {:?} -> {} at {}", i, op, st.val.brief(), st.pos);
                if let Some(f) = st.val.fail() {
                    violation("refused", &format!("{:?} on image {} fails: {}", op, i, f.short()));
                    return;
                }
                if st.pos != heads[i] {
                    violation("overread-header", &format!("after {:?} on image {} the source stands at {}, the frame header ends at {}", op, i, st.pos, heads[i]));
                }
            }
            if head_only {
                return;
            }
            if i > 0 {
                cnt(C::ProbeSecondImage);
            }
            let v = apply(&mut s, &Op::Decode);
            let mut st = look(&mut s, v);
            tr!("image {} decode -> {} at {}", i, st.val.brief(), st.pos);
            if st.pos != ends[i] {
                violation("overread", &format!("after decode of image {} the source stands at {}, the image ends at {} ({})", i, st.pos, ends[i], st.val.brief()));
            }
            st.pos = base[i].pos;
            if let Some(d) = base[i].diff(&st) {
                violation("differs-on-stream", &format!("image {} alone vs on the stream: {}", i, d));
            }
        }
    });
    check_worker_panics();
}
