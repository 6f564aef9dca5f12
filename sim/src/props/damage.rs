//! Storage faults: what can happen to the bytes of an image between writing and decoding.
use super::common::*;
use crate::exec::{cnt, C};
use crate::jpeg::{Image, Proc, Seg, K};
use crate::tape::Tape;
use crate::tr;

fn interesting(t: &mut Tape, old: u8) -> u8 {
    match t.weighted(&[3, 2, 1, 1, 1, 1, 2, 2]) {
        0 => t.draw(256) as u8,
        1 => old ^ (1 << t.draw(8)),
        2 => 0,
        3 => 0xff,
        4 => 0x7f,
        5 => 0x80,
        6 => old.wrapping_add(1),
        _ => old.wrapping_sub(1),
    }
}

pub fn mutate_segs(t: &mut Tape, im: &Image, segs: &mut Vec<Seg>) {
    let pickseg = |t: &mut Tape, segs: &Vec<Seg>, f: &dyn Fn(&K) -> bool| -> Option<usize> {
        let v = find(segs, |k| f(k));
        if v.is_empty() {
            None
        } else {
            Some(*t.pick(&v))
        }
    };
    let k = t.weighted(&[3, 2, 2, 2, 4, 3, 3, 3]);
    match k {
        0 => {
            // any header byte
            if let Some(i) = pickseg(t, segs, &|k| !matches!(k, K::Ecs(_))) {
                let n = segs[i].bytes.len();
                if n > 0 {
                    let j = t.draw(n as u32) as usize;
                    let v = interesting(t, segs[i].bytes[j]);
                    segs[i].bytes[j] = v;
                    cnt(C::FaultHeader);
                    tr!("header byte {} of {:?} set to {:#x}", j, segs[i].k, v);
                }
            }
        }
        1 => {
            let i = t.draw(segs.len() as u32) as usize;
            tr!("segment {:?} lost", segs[i].k);
            segs.remove(i);
            cnt(C::FaultSegLoss);
        }
        2 => {
            let i = t.draw(segs.len() as u32) as usize;
            let s = segs[i].clone();
            let j = t.draw(segs.len() as u32 + 1) as usize;
            tr!("segment {:?} duplicated to {}", s.k, j);
            segs.insert(j, s);
            cnt(C::FaultSegDup);
        }
        3 => {
            let i = t.draw(segs.len() as u32) as usize;
            let j = t.draw(segs.len() as u32) as usize;
            tr!("segments {:?} and {:?} exchanged", segs[i].k, segs[j].k);
            segs.swap(i, j);
            cnt(C::FaultSegSwap);
        }
        4 => {
            // frame header fields
            if let Some(i) = pickseg(t, segs, &|k| *k == K::Sof) {
                cnt(C::FaultHeader);
                let nc = im.comps.len();
                let b = &mut segs[i].bytes;
                if b.len() < 10 + 3 * nc {
                    return;
                }
                let what = t.weighted(&[2, 2, 3, 3, 3, 3, 2, 3]);
                match what {
                    0 => b[1] = 0xc0 + t.draw(16) as u8,
                    1 => b[4] = *t.pick(&[8, 12, 16, 2, 1, 0, 3, 9]),
                    2 => {
                        let h = *t.pick(&[0u16, 1, 7, 8, 9, 16, 17, 64, 200, 1000]);
                        b[5..7].copy_from_slice(&h.to_be_bytes());
                    }
                    3 => {
                        let w = *t.pick(&[0u16, 1, 7, 8, 9, 16, 17, 129, 200, 1000]);
                        b[7..9].copy_from_slice(&w.to_be_bytes());
                    }
                    4 => {
                        let c = t.draw(nc as u32) as usize;
                        b[11 + 3 * c] = (*t.pick(&[1, 2, 3, 4, 0, 5]) << 4) | *t.pick(&[1, 2, 3, 4, 0, 5]);
                    }
                    5 => {
                        let c = t.draw(nc as u32) as usize;
                        b[12 + 3 * c] = *t.pick(&[0, 1, 2, 3, 4, 255]);
                    }
                    6 => {
                        let c = t.draw(nc as u32) as usize;
                        b[10 + 3 * c] = *t.pick(&[1, 2, 3, 82, 71, 34, 0, 114]);
                    }
                    _ => {
                        // change the number of components consistently
                        let n2 = 1 + t.draw(4) as usize;
                        let mut o = b[..10].to_vec();
                        for c in 0..n2 {
                            let c = c.min(nc - 1);
                            o.extend(&b[10 + 3 * c..13 + 3 * c]);
                        }
                        o[9] = n2 as u8;
                        let l = (8 + 3 * n2) as u16;
                        o[2..4].copy_from_slice(&l.to_be_bytes());
                        *b = o;
                    }
                }
                tr!("frame header changed ({}): {}", what, hexs(&segs[i].bytes));
            }
        }
        5 => {
            // scan header fields
            if let Some(i) = pickseg(t, segs, &|k| matches!(k, K::Sos(_))) {
                cnt(C::FaultHeader);
                let b = &mut segs[i].bytes;
                let n = b.len();
                if n < 8 {
                    return;
                }
                match t.weighted(&[2, 2, 2, 2, 2]) {
                    0 => b[n - 3] = *t.pick(&[0, 1, 2, 5, 7, 8, 63, 64]),
                    1 => b[n - 2] = *t.pick(&[0, 1, 5, 62, 63, 64, 255]),
                    2 => b[n - 1] = *t.pick(&[0, 1, 0x10, 0x21, 0x0d, 0x0e, 0xdd, 0xff, 0x0f, 0x32]),
                    3 => {
                        let j = 5 + t.draw((n - 8).max(1) as u32) as usize;
                        b[j] = interesting(t, b[j]);
                    }
                    _ => {
                        let j = 6;
                        b[j] = *t.pick(&[0, 0x11, 0x22, 0x33, 0x44, 0x01, 0x10, 0xff]);
                    }
                }
                tr!("scan header changed: {}", hexs(&segs[i].bytes));
            }
        }
        6 => {
            // a table
            if let Some(i) = pickseg(t, segs, &|k| matches!(k, K::Dqt | K::Dht | K::Dri)) {
                cnt(C::FaultHeader);
                let n = segs[i].bytes.len();
                let j = t.draw(n.min(24) as u32) as usize;
                let v = interesting(t, segs[i].bytes[j]);
                segs[i].bytes[j] = v;
                tr!("byte {} of {:?} set to {:#x}", j, segs[i].k, v);
            }
        }
        _ => {
            // several bits of entropy-coded data
            if let Some(i) = pickseg(t, segs, &|k| matches!(k, K::Ecs(_))) {
                let n = segs[i].bytes.len();
                if n > 0 {
                    for _ in 0..1 + t.draw(4) {
                        let j = t.draw(n as u32) as usize;
                        let v = interesting(t, segs[i].bytes[j]);
                        segs[i].bytes[j] = v;
                        cnt(C::FaultBitFlip);
                        tr!("byte {} of {:?} set to {:#x}", j, segs[i].k, v);
                    }
                }
            }
        }
    }
}

pub fn mutate_bytes(t: &mut Tape, v: &mut Vec<u8>, other: &dyn Fn(&mut Tape) -> Vec<u8>) {
    if v.is_empty() {
        return;
    }
    let n = v.len() as u32;
    match t.weighted(&[4, 3, 2, 2, 2, 2]) {
        0 => {
            for _ in 0..1 + t.draw(3) {
                let i = t.draw(n) as usize;
                let b = t.draw(8);
                v[i] ^= 1 << b;
                cnt(C::FaultBitFlip);
                tr!("bit {} of byte {} flipped", b, i);
            }
        }
        1 => {
            let i = if t.chance(1, 2) { n - 1 - t.draw(n.min(20)) } else { t.draw(n) };
            v.truncate(i as usize);
            cnt(C::FaultTruncate);
            tr!("truncated to {} bytes", i);
        }
        2 => {
            let i = t.draw(n) as usize;
            let l = 1 + t.draw(40) as usize;
            let f = *t.pick(&[0u8, 0xff, 0xaa]);
            let e = (i + l).min(v.len());
            v[i..e].fill(f);
            cnt(C::FaultZero);
            tr!("bytes {}..{} filled with {:#x}", i, e, f);
        }
        3 => {
            let i = t.draw(n) as usize;
            let e = (i + 1 + t.draw(60) as usize).min(v.len());
            let part = v[i..e].to_vec();
            let at = t.draw(n) as usize;
            v.splice(at..at, part);
            cnt(C::FaultDup);
            tr!("bytes {}..{} repeated at {}", i, e, at);
        }
        4 => {
            let i = t.draw(n) as usize;
            let e = (i + 1 + t.draw(60) as usize).min(v.len());
            v.drain(i..e);
            cnt(C::FaultDelete);
            tr!("bytes {}..{} lost", i, e);
        }
        _ => {
            let o = other(t);
            let i = t.draw(n) as usize;
            let j = t.draw(o.len() as u32) as usize;
            v.truncate(i);
            v.extend(&o[j..]);
            cnt(C::FaultSplice);
            tr!("after byte {} the bytes of another image from {}", i, j);
        }
    }
}

/// Keep the work of a decode bounded: whatever could be read as a frame header declares at
/// most `limit` samples.
pub fn bound_dims(v: &mut [u8], limit: usize) {
    if v.len() < 10 {
        return;
    }
    for i in 0..v.len() - 10 {
        if v[i] == 0xff && matches!(v[i + 1], 0xc0..=0xc3) {
            let h = (v[i + 5] as usize) << 8 | v[i + 6] as usize;
            let w = (v[i + 7] as usize) << 8 | v[i + 8] as usize;
            let n = (v[i + 9] as usize).clamp(1, 4);
            // sampling factors may round both up to multiples of 32
            let r = |x: usize| x.div_ceil(32) * 32;
            if r(h) * r(w) * n > limit {
                v[i + 5] = 0;
                if r(v[i + 6] as usize) * r(w) * n > limit {
                    v[i + 7] &= 1;
                }
            }
        }
    }
}

/// A progressive image whose last scans never arrive: which scans do, and the segments left.
pub fn lose_tail(t: &mut Tape, im: &Image) -> Option<(Vec<bool>, Vec<Seg>)> {
    let n = im.scans.len();
    if im.proc != Proc::Progressive || n < 2 {
        return None;
    }
    let k = 1 + t.draw(n as u32 - 1) as usize;
    let have = (0..n).map(|i| i < k).collect();
    let segs = im.segs.iter().filter(|s| !matches!(s.k, K::Sos(i) | K::Ecs(i) if i >= k)).cloned().collect();
    tr!("only the first {} of {} scans arrive", k, n);
    cnt(C::FaultScanLoss);
    Some((have, segs))
}

pub struct Bytes {
    pub data: Vec<u8>,
    pub im: Image,
    pub segs: Vec<Seg>,
    pub damaged: bool,
}

/// An image, damaged with probability pct %, possibly followed by other bytes.
pub fn any_bytes(t: &mut Tape, o: &Opt, pct: u32, limit: usize) -> Bytes {
    let damaged = t.chance(pct, 100);
    let hostile = Opt { hostile: 15, ..o.clone() };
    let im = generate(t, if damaged { &hostile } else { o });
    note_image(&im);
    tr!("image: {}", describe(&im));
    let mut segs = im.segs.clone();
    if !damaged {
        if t.chance(1, 5) {
            if let Some((_, left)) = lose_tail(t, &im) {
                segs = left;
            }
        }
        let mut data = assemble(&segs);
        if t.chance(1, 4) {
            let n = t.draw(40) as usize;
            let b = t.seed().bytes(n);
            tr!("{} trailing bytes", n);
            data.extend(b);
        }
        return Bytes { data, im, segs, damaged: false };
    }
    cnt(C::ImgRefTest);
    let n = 1 + t.weighted(&[5, 3, 2, 1]);
    let in_segs = t.weighted(&[1, 2, 2]);
    if in_segs > 0 {
        for _ in 0..n {
            if !segs.is_empty() {
                mutate_segs(t, &im, &mut segs);
            }
        }
    }
    let mut data = assemble(&segs);
    if in_segs != 1 {
        let small = Opt { wide: 0, mass: 0, max_w: 24, max_h: 24, ..o.clone() };
        for _ in 0..n {
            mutate_bytes(t, &mut data, &|t| assemble(&generate(t, &small).segs));
        }
    }
    bound_dims(&mut data, limit);
    Bytes { data, im, segs, damaged: true }
}
