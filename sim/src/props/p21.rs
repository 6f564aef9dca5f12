//! Unsupported features are named as such.
//!
//! A fault turns headers of a well-formed image into those of an image that uses a feature outside the supported
//! set. From the call that receives the changed header on, the decoder has to name that feature and nothing else.
use super::common::*;
use crate::exec::{cnt, C};
use crate::jpeg::{Proc, Seg, K};
use crate::subject::*;
use crate::tape::Tape;
use crate::tr;

struct Made {
    segs: Vec<Seg>,
    /// acceptable names
    names: Vec<String>,
    /// seen by read_info already
    early: bool,
    xf: Option<ColorTransform>,
}

fn sof(segs: &[Seg]) -> usize {
    segs.iter().position(|s| s.k == K::Sof).unwrap()
}

fn make(t: &mut Tape, im: &crate::jpeg::Image) -> Made {
    let mut m = Made { segs: im.segs.clone(), names: vec![], early: true, xf: None };
    let f = sof(&m.segs);
    let base = m.segs[f].bytes[1];
    let n = im.comps.len();
    let many = n > 1 && im.proc != Proc::Lossless;
    // a single line or column has no sampling ratio
    let area = im.w > 1 && im.h > 1;
    let bare = n == 3 && im.proc != Proc::Lossless && !im.segs.iter().any(|s| matches!(s.k, K::App(0) | K::App(14)));
    let marker = |k: u8, body: &[u8]| Seg::marker(K::Noise, k, body);
    // any place that a table may have: (early: before the frame header)
    let place = |t: &mut Tape, m: &mut Made, s: Seg, sof_first: bool| {
        let ok: Vec<usize> = (1..m.segs.len()).filter(|&i| !matches!(m.segs[i].k, K::Ecs(_)) && (!sof_first || i > f)).collect();
        let at = if t.chance(1, 2) { *t.pick(&ok[..(f + 2).min(ok.len())]) } else { *t.pick(&ok) };
        m.early = at <= f;
        m.segs.insert(at, s);
    };
    match t.weighted(&[3, 3, 2, 2, 1, 2, 2, 2, 2, 2, if many && area { 3 } else { 0 }, if many { 2 } else { 0 }, if bare { 4 } else { 0 }, if im.proc == Proc::Lossless && n > 1 && area { 6 } else { 0 }]) {
        0 => {
            // arithmetic coding of the same process
            m.segs[f].bytes[1] = if base == 0xc0 { 0xc9 } else { base + 8 };
            m.names.push("ArithmeticEntropyCoding".into());
        }
        1 => {
            // a differential frame
            let family = if base == 0xc0 { 1 } else { base - 0xc0 };
            let arith = t.chance(1, 3);
            m.segs[f].bytes[1] = 0xc4 + family + if arith { 8 } else { 0 };
            m.names.push("Hierarchical".into());
            if arith {
                m.names.push("ArithmeticEntropyCoding".into());
            }
        }
        2 => {
            if im.proc == Proc::Lossless {
                // all precisions of lossless frames are supported
                m.segs[f].bytes[1] = 0xc1;
                m.segs[f].bytes[4] = 12;
            } else {
                if base == 0xc0 {
                    m.segs[f].bytes[1] = 0xc1;
                }
                m.segs[f].bytes[4] = 12;
            }
            m.names.push("SamplePrecision(12)".into());
        }
        3 => {
            // another number of components
            let k = if im.proc == Proc::Progressive {
                2
            } else {
                match t.weighted(&[3, 3, 1]) {
                    0 => 2,
                    1 => 5 + t.draw(6) as usize,
                    _ => 11 + t.draw(245) as usize,
                }
            };
            let s = &mut m.segs[f].bytes;
            let mut ids: Vec<u8> = im.comps.iter().map(|c| c.id).collect();
            s.truncate(10);
            let mut next = 0u8;
            while ids.len() < k {
                if !ids.contains(&next) {
                    ids.push(next);
                }
                next = next.wrapping_add(1);
            }
            for (i, &id) in ids[..k].iter().enumerate() {
                let c = im.comps.get(i).or(im.comps.first()).unwrap();
                s.extend([id, (c.h << 4 | c.v) as u8, c.tq as u8]);
            }
            s[9] = k as u8;
            let l = (s.len() - 2) as u16;
            s[2..4].copy_from_slice(&l.to_be_bytes());
            m.names.push(format!("ComponentCount({})", k));
            // the factors may be unsupported as well
            m.names.push("SubsamplingRatio".into());
        }
        4 => {
            // no number of lines
            m.segs[f].bytes[5..7].copy_from_slice(&[0, 0]);
            m.names.push("DNL".into());
        }
        5 => {
            // number of lines after the first scan
            let at = m.segs.iter().position(|s| matches!(s.k, K::Ecs(_))).unwrap() + 1;
            let mut h = (im.h as u16).to_be_bytes();
            if t.chance(1, 3) {
                h = [t.draw(256) as u8, t.draw(256) as u8];
            }
            m.segs.insert(at, marker(0xdc, &h));
            m.early = false;
            m.names.push("DNL".into());
        }
        6 => {
            // arithmetic conditioning
            let mut b = vec![];
            for _ in 0..1 + t.draw(4) {
                b.extend([(t.draw(2) << 4 | t.draw(4)) as u8, 1 + t.draw(63) as u8]);
            }
            place(t, &mut m, marker(0xcc, &b), false);
            m.names.push("ArithmeticEntropyCoding".into());
        }
        7 => {
            // hierarchical progression
            let b = m.segs[f].bytes[4..].to_vec();
            place(t, &mut m, marker(0xde, &b), false);
            m.names.push("Hierarchical".into());
        }
        8 => {
            // expansion of the reference
            let b = [*t.pick(&[0x00u8, 0x01, 0x10, 0x11])];
            place(t, &mut m, marker(0xdf, &b), false);
            m.names.push("Hierarchical".into());
        }
        9 => {
            // a second frame
            let mut s = m.segs[f].clone();
            s.k = K::Noise;
            if t.chance(1, 2) {
                // a differential one
                s.bytes[1] = if base == 0xc0 { 0xc5 } else { base + 4 };
            }
            place(t, &mut m, s, true);
            m.names.push("Hierarchical".into());
        }
        10 => {
            // sampling factors without integer ratio
            let vert = t.chance(1, 2);
            let (big, small) = *t.pick(&[(3usize, 2usize), (4, 3)]);
            let hi = t.draw(n as u32) as usize;
            let lo = (hi + 1 + t.draw(n as u32 - 1) as usize) % n;
            for i in 0..n {
                let x = if i == hi {
                    big
                } else if i == lo {
                    small
                } else {
                    1 + t.draw(small as u32) as usize
                };
                let y = 1 + t.draw(4) as usize;
                m.segs[f].bytes[11 + 3 * i] = if vert { y << 4 | x } else { x << 4 | y } as u8;
            }
            m.names.push("NonIntegerSubsamplingRatio".into());
            m.names.push("SubsamplingRatio".into());
        }
        11 => {
            let x = if t.chance(1, 2) { ColorTransform::JcsBgYcc } else { ColorTransform::JcsBgRgb };
            m.xf = Some(x);
            m.early = false;
            m.names.push(format!("ColorTransform({:?})", x));
        }
        12 => {
            // component identifiers of wide gamut colour spaces
            let (ids, x) = if t.chance(1, 2) { ([1u8, 34, 35], "JcsBgYcc") } else { ([114, 103, 98], "JcsBgRgb") };
            let old: Vec<u8> = im.comps.iter().map(|c| c.id).collect();
            for s in m.segs.iter_mut() {
                match s.k {
                    K::Sof => {
                        for i in 0..3 {
                            s.bytes[10 + 3 * i] = ids[i];
                        }
                    }
                    K::Sos(_) => {
                        for j in 0..s.bytes[4] as usize {
                            let p = 5 + 2 * j;
                            let i = old.iter().position(|&o| o == s.bytes[p]).unwrap();
                            s.bytes[p] = ids[i];
                        }
                    }
                    _ => {}
                }
            }
            m.early = false;
            m.names.push(format!("ColorTransform({})", x));
        }
        _ => {
            // lossless samples of different density, or several per unit of an interleaved scan
            let hi = t.draw(n as u32) as usize;
            let x = *t.pick(&[0x21u8, 0x12, 0x22, 0x41, 0x31]);
            let all = im.scans[0].comps.len() > 1 && t.chance(1, 3);
            let x = if all { *t.pick(&[0x21, 0x12]) } else { x };
            for i in 0..n {
                m.segs[f].bytes[11 + 3 * i] = if all || i == hi { x } else { 0x11 };
            }
            m.early = false;
            m.names.push("SubsamplingRatio".into());
        }
    }
    m
}

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { max_w: 40, max_h: 40, wide: 20, mass: 0, ..Opt::any() };
    let im = generate(t, &o);
    note_image(&im);
    tr!("image: {}", describe(&im));
    let m = make(t, &im);
    cnt(C::FaultUnsupported);
    tr!("made {:?} early {} transform {:?}", m.names, m.early, m.xf);
    let data = Arc::new(assemble(&m.segs));
    let mut ops = vec![];
    if let (Some(x), true) = (m.xf, t.chance(1, 2)) {
        ops.push(Op::SetXf(x));
    }
    for _ in 0..t.weighted(&[3, 2, 1]) {
        ops.push(if t.chance(1, 2) {
            let (a, b) = draw_request(t, im.w, im.h);
            Op::Scale(a, b)
        } else {
            Op::ReadInfo
        });
    }
    if let (Some(x), true) = (m.xf, ops.is_empty() || !matches!(ops[0], Op::SetXf(_))) {
        ops.push(Op::SetXf(x));
    }
    let times = if t.chance(1, 60) { 1 + t.draw(300) as usize } else { 1 + t.weighted(&[2, 1, 1]) };
    for _ in 0..times {
        ops.push(Op::Decode);
    }
    let plan = if t.chance(1, 3) { Plan::draw_benign(t) } else { Plan::plain() };
    let caller = draw_caller(t);
    let pool = draw_pool(t);
    tr!("calls {:?}", ops);
    tr_bytes("data", &data);
    start(c, pool, WELL_FORMED_BUDGET);
    nontrivial();
    let got = on(caller, || {
        let mut s = Subj::new(&data, plan.clone());
        run_ops(&mut s, &ops)
    });
    check_worker_panics();
    let mut named = false;
    for (k, g) in got.iter().enumerate() {
        tr!("{:?} -> {}", ops[k], g.val.brief());
        check_no_panic(&g.val, "a call");
        if matches!(ops[k], Op::SetXf(_)) {
            continue;
        }
        let fail = g.val.fail();
        if named {
            if fail.is_none() {
                violation("unsupported-later", &format!("call {} ({:?}) succeeds after the stream was refused", k, ops[k]));
                return;
            }
            continue;
        }
        if !m.early && !matches!(ops[k], Op::Decode) {
            if let Some(f) = fail {
                violation("unsupported-early", &format!("call {} ({:?}) fails before the feature is in use: {}", k, ops[k], f.short()));
                return;
            }
            continue;
        }
        match fail {
            Some(Fail::Unsupported(x)) if m.names.contains(x) => named = true,
            Some(f) => {
                violation("unsupported", &format!("call {} ({:?}) returns {}, expected Unsupported({})", k, ops[k], f.short(), m.names.join(" or ")));
                return;
            }
            None => {
                violation("unsupported-accepted", &format!("call {} ({:?}) succeeds, expected Unsupported({})", k, ops[k], m.names.join(" or ")));
                return;
            }
        }
    }
}
