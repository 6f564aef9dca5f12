//! Embedded metadata survives segment faults or is absent.
use super::common::*;
use crate::exec::{cnt, C};
use crate::jpeg::{Seg, K};
use crate::sched;
use crate::subject::*;
use crate::tape::Tape;
use crate::tr;

#[derive(Clone, Debug)]
enum M {
    Icc(u8, u8, Vec<u8>),
    Exif(Vec<u8>),
    Xmp(Vec<u8>),
    /// must not be mistaken for metadata
    Other(Seg),
}
const XMP: &[u8] = b"http://ns.adobe.com/xap/1.0/\0";

fn seg(m: &M) -> Seg {
    match m {
        M::Icc(s, n, d) => {
            let mut b = b"ICC_PROFILE\0".to_vec();
            b.extend([*s, *n]);
            b.extend(d);
            Seg::marker(K::App(2), 0xe2, &b)
        }
        M::Exif(d) => Seg::marker(K::App(1), 0xe1, &[b"Exif\0\0", &d[..]].concat()),
        M::Xmp(d) => Seg::marker(K::App(1), 0xe1, &[XMP, &d[..]].concat()),
        M::Other(s) => s.clone(),
    }
}

fn content(t: &mut Tape, max: usize, min: usize) -> Vec<u8> {
    let mut r = t.seed();
    let n = match t.weighted(&[5, 2, 1]) {
        0 => min + t.draw(60) as usize,
        1 => min + t.draw(600) as usize,
        _ => max - t.draw(3) as usize,
    };
    let mut v = match t.weighted(&[4, 2, 2]) {
        0 => r.bytes(n),
        1 => vec![0xff; n],
        _ => {
            // looks like a complete JPEG file (a thumbnail), with markers of every kind
            let mut v = b"\xff\xd8\xff\xdb\0\x04\0\x01\xff\xc0\0\x0b\x08\0\x08\0\x08\x01\x01\x11\0\xff\xda\0\x08\x01\x01\0\0\x3f\0\xff\xd0\xff\xe2\xff\xe1\xff\xd9".to_vec();
            v.extend(r.bytes(n.saturating_sub(v.len())));
            v
        }
    };
    v.truncate(max);
    while v.len() < min {
        v.push(1);
    }
    v
}

fn other(t: &mut Tape) -> Seg {
    let app = |k: u8, b: &[u8]| Seg::marker(K::App(k), 0xe0 + k, b);
    let d = content(t, 400, 0);
    match t.draw(16) {
        13.. => {
            let (k, b) = near_miss(t);
            app(k, &b)
        }
        0 => Seg::marker(K::Com, 0xfe, &d),
        1 => Seg::marker(K::Com, 0xfe, &[b"Exif\0\0", &d[..]].concat()),
        2 => app(1, &[b"Exif\0\x01", &d[..]].concat()),
        3 => app(1, &[b"exif\0\0", &d[..]].concat()),
        4 => app(1, &[b"http://ns.adobe.com/xmp/extension/\0", &d[..]].concat()),
        5 => app(1, &b"http://ns.adobe.com/xap/1.0/"[..t.draw(29) as usize]),
        6 => app(1, &b"Exif\0\0"[..t.draw(6) as usize]),
        7 => app(2, &[b"ICC_PROFILF\0\x01\x01", &d[..]].concat()),
        8 => app(2, &[b"MPF\0", &d[..]].concat()),
        9 => {
            let k = *t.pick(&[3u8, 4, 6, 11, 12, 13, 15]);
            app(k, &[b"ICC_PROFILE\0\x01\x01", &d[..]].concat())
        }
        10 => {
            let k = *t.pick(&[2u8, 3, 5, 10, 13]);
            app(k, &[b"Exif\0\0", &d[..]].concat())
        }
        11 => app(13, &[b"Photoshop 3.0\0", &d[..]].concat()),
        _ => {
            let k = *t.pick(&[2u8, 5, 9, 15]);
            app(k, &[XMP, &d[..]].concat())
        }
    }
}

/// What the arrived segments imply.
fn oracle(ms: &[M]) -> (Option<Vec<u8>>, Option<Vec<u8>>, Option<Vec<u8>>) {
    let (mut exif, mut xmp) = (None, None);
    let mut icc: Vec<(u8, u8, &Vec<u8>)> = vec![];
    for m in ms {
        match m {
            M::Exif(d) => exif = Some(d.clone()),
            M::Xmp(d) => xmp = Some(d.clone()),
            M::Icc(s, n, d) => icc.push((*s, *n, d)),
            M::Other(_) => {}
        }
    }
    let n = icc.len();
    let ok = n >= 1 && n <= 255 && icc.iter().all(|c| c.1 as usize == n);
    icc.sort_by_key(|c| c.0);
    let ok = ok && icc.iter().enumerate().all(|(i, c)| c.0 as usize == i + 1);
    let profile = if ok { Some(icc.iter().flat_map(|c| c.2.iter().copied()).collect()) } else { None };
    (exif, xmp, profile)
}

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { meta: false, max_w: 24, max_h: 24, wide: 8, ..Opt::any() };
    let im = generate(t, &o);
    note_image(&im);
    tr!("image: {}", describe(&im));
    // metadata
    let mut ms: Vec<M> = vec![];
    if t.chance(9, 10) {
        // profiles of several megabytes
        let mass = t.chance(1, 250);
        let n = match t.weighted(&[8, 3, 1]) {
            _ if mass => {
                let most = if t.chance(1, 8) { 236 } else { 45 };
                18 + t.draw(most) as usize
            }
            0 => 1 + t.draw(5) as usize,
            1 => 1 + t.draw(20) as usize,
            _ => 255 - t.draw(6) as usize,
        };
        let mut r = t.seed();
        for i in 0..n {
            let d = if mass {
                let l = 65519 - if r.chance(1, 2) { 0 } else { r.below(5000) as usize };
                r.bytes(l)
            } else if n > 20 {
                let l = 1 + r.below(12) as usize;
                r.bytes(l)
            } else {
                content(t, 65519, 1)
            };
            ms.push(M::Icc(i as u8 + 1, n as u8, d));
        }
        let icc = 0..n;
        // faults of the chunks
        let faults = t.weighted(&[3, 4, 1]);
        for _ in 0..faults {
            let k: Vec<usize> = (0..ms.len()).filter(|&i| matches!(ms[i], M::Icc(..))).collect();
            if k.is_empty() {
                break;
            }
            let a = k[t.draw(k.len() as u32) as usize];
            match t.weighted(&[3, 2, 2, 2, 1]) {
                0 => {
                    ms.remove(a);
                    cnt(C::FaultSegLoss);
                }
                1 => {
                    let at = t.draw(ms.len() as u32 + 1) as usize;
                    let x = ms[a].clone();
                    ms.insert(at, x);
                    cnt(C::FaultSegDup);
                }
                2 | 3 => {
                    let d = t.draw(4) as u8;
                    if let M::Icc(s, m, _) = &mut ms[a] {
                        let f = if d & 1 == 0 { s } else { m };
                        *f = match d / 2 {
                            0 => f.wrapping_add(1),
                            _ => *t.pick(&[0, 1, 2, 255, 128]),
                        };
                    }
                    cnt(C::FaultNumbering);
                }
                _ => {
                    // a second, shorter profile gets mixed in
                    let n = 1 + t.draw(3) as u8;
                    for i in 0..n {
                        let d = content(t, 100, 1);
                        ms.push(M::Icc(i + 1, n, d));
                    }
                    cnt(C::FaultSegDup);
                }
            }
        }
        let _ = icc;
        // arrival order
        match t.weighted(&[3, 2, 2]) {
            0 => {}
            1 => ms.reverse(),
            _ => {
                for i in (1..ms.len()).rev() {
                    let j = t.draw(i as u32 + 1) as usize;
                    ms.swap(i, j);
                }
                cnt(C::FaultSegSwap);
            }
        }
    }
    for _ in 0..t.weighted(&[2, 3, 3, 1, 1]) {
        let at = t.draw(ms.len() as u32 + 1) as usize;
        let m = match t.weighted(&[2, 2, 3]) {
            0 => M::Exif(content(t, 65527, 0)),
            1 => M::Xmp(content(t, 65504, 0)),
            _ => M::Other(other(t)),
        };
        ms.insert(at, m);
    }
    // where each of them sits in the file
    let slots: Vec<usize> = (1..im.segs.len()).filter(|&i| !matches!(im.segs[i].k, K::Ecs(_))).collect();
    let spread = t.weighted(&[3, 3, 1]);
    let mut at: Vec<usize> = ms
        .iter()
        .map(|_| match spread {
            0 => 0,
            1 => t.draw(slots.len() as u32) as usize,
            _ => slots.len() - 1,
        })
        .collect();
    at.sort();
    let mut segs: Vec<Seg> = vec![];
    let mut mi = 0;
    let mut before_sof = 0;
    for (i, s) in im.segs.iter().enumerate() {
        while mi < ms.len() && slots[at[mi]] == i {
            segs.push(seg(&ms[mi]));
            mi += 1;
        }
        if s.k == K::Sof {
            before_sof = mi;
        }
        segs.push(s.clone());
    }
    let data = Arc::new(assemble(&segs));
    let plain = Arc::new(assemble(&im.segs));
    let early = t.chance(1, 3);
    let plan = if t.chance(1, 2) { Plan::draw_benign(t) } else { Plan::plain() };
    let caller = draw_caller(t);
    let pool = draw_pool(t);
    for m in &ms {
        match m {
            M::Icc(s, n, d) => tr!("ICC chunk {} of {}: {} bytes", s, n, d.len()),
            M::Exif(d) => tr!("Exif {} bytes", d.len()),
            M::Xmp(d) => tr!("XMP {} bytes", d.len()),
            M::Other(s) => tr!("{:?} {}", s.k, hexs(&s.bytes[..s.bytes.len().min(40)])),
        }
    }
    tr_bytes("data", &data);
    start(c, pool, WELL_FORMED_BUDGET);
    sched::quiet(true);
    let base = {
        let mut s = Subj::new(&plain, Plan::plain());
        s.decode()
    };
    sched::quiet(false);
    if !ms.is_empty() {
        nontrivial();
    }
    on(caller, || {
        let mut s = Subj::new(&data, plan.clone());
        if early {
            let v = Val::Unit(s.read_info());
            let st = look(&mut s, v);
            check(&st, &oracle(&ms[..before_sof]), "after read_info");
        }
        let v = Val::Px(s.decode());
        let st = look(&mut s, v);
        check_no_panic(&st.val, "decode");
        let Val::Px(px) = &st.val else { unreachable!() };
        if *px != base {
            violation("metadata-pixels", &format!("with metadata segments: {}; without: {}", brief(px), brief(&base)));
        }
        if px.is_ok() {
            let o = oracle(&ms);
            cnt(if o.2.is_some() { C::ProbeIccReturned } else { C::ProbeIccRefused });
            check(&st, &o, "after decode");
        }
    });
    check_worker_panics();
}

fn check(st: &Step, o: &(Option<Vec<u8>>, Option<Vec<u8>>, Option<Vec<u8>>), when: &str) {
    for (key, what, got, want) in [("exif", "exif_data", &st.exif, &o.0), ("xmp", "xmp_data", &st.xmp, &o.1), ("icc", "icc_profile", &st.icc, &o.2)] {
        if got != want {
            let l = |x: &Option<Vec<u8>>| x.as_ref().map(|v| v.len());
            let k = match (got, want) {
                (Some(a), Some(b)) => a.iter().zip(b).position(|(x, y)| x != y),
                _ => None,
            };
            violation(key, &format!("{} {} has {:?} bytes, the segments that arrived imply {:?} (first difference {:?})", what, when, l(got), l(want), k));
        }
    }
}
