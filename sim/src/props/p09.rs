//! Returned buffers match the reported geometry.
use super::common::*;
use super::damage::any_bytes;
use crate::jpeg::Proc;
use crate::model;
use crate::subject::*;
use crate::tr;

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let big = t.chance(1, 60);
    let o = Opt { max_w: 70, max_h: 70, wide: 20, procs: [3, 2, 3, 4], ..Opt::any() };
    let b = if big {
        // more than 65000 lines or columns
        let wide = t.chance(1, 2);
        let l = 65535 - t.draw(12) as usize;
        let s = 1 + t.draw(3) as usize;
        let (w, h) = if wide { (l, s) } else { (s, l) };
        let proc = [Proc::Baseline, Proc::Progressive, Proc::Lossless][t.weighted(&[3, 2, 2])];
        let n = [1, 3][t.weighted(&[3, 1])];
        let o = Opt { tables: false, ..o.clone() };
        let im = generate_sized(t, &o, proc, n, w, h);
        note_image(&im);
        tr!("image: {}", describe(&im));
        super::damage::Bytes { data: assemble(&im.segs), segs: im.segs.clone(), im, damaged: false }
    } else {
        any_bytes(t, &o, 30, 200_000)
    };
    let mut ops = vec![];
    for _ in 0..t.weighted(&[1, 3, 2, 1, 1]) {
        ops.push(match t.weighted(&[5, 1, 1]) {
            0 => {
                let (x, y) = draw_request(t, b.im.w, b.im.h);
                Op::Scale(x, y)
            }
            1 => Op::ReadInfo,
            _ => Op::SetXf(draw_override(t, b.im.comps.len()).0),
        });
    }
    ops.push(Op::Decode);
    let plan = if t.chance(1, 3) { Plan::draw_benign(t) } else { Plan::plain() };
    let caller = draw_caller(t);
    let pool = draw_pool(t);
    tr!("calls {:?}", ops);
    tr_bytes("data", &b.data);
    start(c, pool, WELL_FORMED_BUDGET * 3);
    let data = Arc::new(b.data.clone());
    on(caller, || {
        let mut s = Subj::new(&data, plan.clone());
        // dimensions at full size, from the decoder itself (the data may be damaged)
        let full = {
            let mut f = Subj::new(&data, Plan::plain());
            let _ = f.read_info();
            f.info().ok().flatten().map(|i| info_tuple(&i))
        };
        if !b.damaged {
            let want = super::p07::expected_info(&b.im, 8);
            if full != Some(want) {
                violation("info", &format!("read_info reports {:?}, expected {:?}", full, want));
                return;
            }
        }
        let mut dims = full.map(|f| (f.0, f.1));
        for op in &ops {
            let v = apply(&mut s, op);
            let st = look(&mut s, v);
            tr!("{:?} -> {} info {:?}", op, st.val.brief(), st.info);
            check_no_panic(&st.val, "a call");
            if !b.damaged {
                if let Some(f) = st.val.fail() {
                    violation("refused", &format!("{:?} fails: {}", op, f.short()));
                    return;
                }
            }
            if let (Op::Scale(rw, rh), Val::Size(Ok(z))) = (op, &st.val) {
                let Some(f) = full else {
                    violation("scale-without-header", "scale succeeds where read_info fails");
                    return;
                };
                let s = if f.3 == "lossless" { 8 } else { model::choose_scale(f.0 as usize, f.1 as usize, *rw as usize, *rh as usize) };
                let want = ((f.0 as usize * s).div_ceil(8) as u16, (f.1 as usize * s).div_ceil(8) as u16);
                if *z != want {
                    violation("scale", &format!("scale({}, {}) of a {}x{} image returned {:?}, expected {:?}", rw, rh, f.0, f.1, z, want));
                }
                dims = Some(want);
            }
            if !matches!(op, Op::SetXf(_)) && st.val.fail().is_none() {
                if st.info.map(|i| (i.0, i.1)) != dims {
                    violation("info", &format!("after {:?} info reports {:?}, expected {:?}", op, st.info, dims));
                }
            }
            if let (Val::Px(Ok(px)), Some(i)) = (&st.val, st.info) {
                nontrivial();
                let want = i.0 as usize * i.1 as usize * bpp_of(i.2);
                if px.len() != want {
                    violation(size_class(&b, px.len(), want, i.2, i.3), &format!("decode returned {} bytes, the image info {:?} implies {}", px.len(), i, want));
                }
            }
        }
    });
    check_worker_panics();
}
