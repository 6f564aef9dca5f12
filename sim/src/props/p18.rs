//! Malformed headers are refused.
//!
//! A fault changes one field of one header of a well-formed image to a value that the standard does not allow, or
//! moves, inserts or removes a segment so that the stream contradicts itself. The call that receives the contradiction
//! has to report a format error, none before it fails, and none after it succeeds.
use super::common::*;
use crate::exec::{cnt, C};
use crate::jpeg::{Image, Proc, Seg, K};
use crate::subject::*;
use crate::tape::Tape;
use crate::tr;

struct Made {
    segs: Vec<Seg>,
    what: String,
    /// seen by read_info already
    early: bool,
}

fn other(t: &mut Tape, not: &[u8]) -> u8 {
    let near = t.chance(1, 2);
    loop {
        let v = if near { t.draw(20) as u8 } else { t.draw(256) as u8 };
        if !not.contains(&v) {
            return v;
        }
    }
}
/// A value from lo to hi, often near lo or hi.
fn span(t: &mut Tape, lo: u32, hi: u32) -> u32 {
    match t.draw(3) {
        0 => lo,
        1 => lo + t.draw(hi - lo + 1),
        _ => hi - t.draw((hi - lo + 1).min(3)),
    }
}
fn len_of(b: &[u8]) -> usize {
    (b[2] as usize) << 8 | b[3] as usize
}
fn set_len(s: &mut Seg, l: usize) {
    s.bytes[2..4].copy_from_slice(&(l as u16).to_be_bytes());
}
/// Offsets of the tables of a DHT segment.
fn dht_tables(b: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut p = 4;
    while p < b.len() {
        v.push(p);
        p += 17 + b[p + 1..p + 17].iter().map(|&x| x as usize).sum::<usize>();
    }
    v
}
fn dqt_tables(b: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut p = 4;
    while p < b.len() {
        v.push(p);
        p += 65 + 64 * (b[p] >> 4) as usize;
    }
    v
}

fn frame(t: &mut Tape, im: &Image, m: &mut Made, f: usize) {
    let n = im.comps.len();
    let lossless = im.proc == Proc::Lossless;
    let s = &mut m.segs[f];
    let i = t.draw(n as u32) as usize;
    m.early = true;
    match t.weighted(&[3, 3, 2, 2, if n > 1 { 3 } else { 0 }, 4, 3, if im.proc == Proc::Progressive { 2 } else { 0 }]) {
        0 => {
            let l = loop {
                let l = if t.chance(1, 2) { t.draw(14) as usize } else { 2 + 6 + 3 * n + 9 - t.draw(19) as usize };
                if l != 8 + 3 * n {
                    break l;
                }
            };
            set_len(s, l);
            m.what = format!("frame header of length {}", l);
        }
        1 => {
            let p = if lossless { span(t, 17, 255) as u8 } else { other(t, &[8, 12]) };
            s.bytes[4] = if im.proc == Proc::Baseline && t.chance(1, 3) { 12 } else { p };
            m.what = format!("precision {}", s.bytes[4]);
        }
        2 => {
            s.bytes[7..9].copy_from_slice(&[0, 0]);
            m.what = "width 0".into();
        }
        3 => {
            s.bytes[9] = 0;
            if t.chance(1, 2) {
                s.bytes.truncate(10);
                set_len(s, 8);
            }
            m.what = "no components".into();
        }
        4 => {
            let j = (i + 1 + t.draw(n as u32 - 1) as usize) % n;
            s.bytes[10 + 3 * i] = s.bytes[10 + 3 * j];
            m.what = format!("components {} and {} have the same identifier", i, j);
        }
        5 => {
            let x = if t.chance(1, 2) { 0 } else { span(t, 5, 15) as u8 };
            let p = 11 + 3 * i;
            s.bytes[p] = if t.chance(1, 2) { x << 4 | s.bytes[p] & 15 } else { s.bytes[p] & 0xf0 | x };
            m.what = format!("sampling factors {:02x} of component {}", s.bytes[p], i);
        }
        6 => {
            let x = if lossless && t.chance(1, 2) { 1 + t.draw(3) } else { span(t, 4, 255) } as u8;
            s.bytes[12 + 3 * i] = x;
            m.what = format!("quantisation table selector {} of component {}", x, i);
        }
        _ => {
            let k = span(t, 5, 255) as usize;
            s.bytes.truncate(10);
            for j in 0..k {
                s.bytes.extend([j as u8, 0x11, im.comps[0].tq as u8]);
            }
            s.bytes[9] = k as u8;
            set_len(s, 8 + 3 * k);
            m.what = format!("{} components in a progressive frame", k);
        }
    }
}

fn scan(t: &mut Tape, im: &Image, m: &mut Made, f: usize) {
    let sos = find(&m.segs, |k| matches!(k, K::Sos(_)));
    let mut at = *t.pick(&sos);
    m.early = false;
    let inter: Vec<usize> = sos.iter().copied().filter(|&i| m.segs[i].bytes[4] > 1).collect();
    // scans that can be made to have several components and AC coefficients
    let pdc: Vec<usize> = if im.proc == Proc::Progressive { inter.iter().copied().filter(|&i| im.scans[num(&m.segs[i])].ss == 0).collect() } else { vec![] };
    let first_inter = inter.contains(&sos[0]) && im.proc != Proc::Lossless;
    let what = t.weighted(&[3, 3, 3, if inter.is_empty() { 0 } else { 3 }, if inter.is_empty() { 0 } else { 3 }, 4, if first_inter { 3 } else { 0 }, 10, if pdc.is_empty() { 0 } else { 3 }]);
    if what == 3 || what == 4 {
        at = *t.pick(&inter);
    }
    if what == 8 {
        at = *t.pick(&pdc);
    }
    let sc = &im.scans[num(&m.segs[at])];
    let s = &mut m.segs[at];
    let n = s.bytes[4] as usize;
    let j = t.draw(n as u32) as usize;
    let tail = 5 + 2 * n;
    match what {
        0 => {
            let l = loop {
                let l = t.draw(20) as usize;
                if l != 6 + 2 * n {
                    break l;
                }
            };
            set_len(s, l);
            m.what = format!("scan header of length {}", l);
        }
        1 => {
            let k = if t.chance(1, 2) { 0 } else { span(t, 5, 255) as u8 };
            s.bytes[4] = k;
            if t.chance(1, 2) {
                set_len(s, 6 + 2 * k as usize);
            }
            m.what = format!("{} components in a scan", k);
        }
        2 => {
            let ids: Vec<u8> = im.comps.iter().map(|c| c.id).collect();
            s.bytes[5 + 2 * j] = other(t, &ids);
            m.what = format!("scan of component {} which the frame does not have", s.bytes[5 + 2 * j]);
        }
        3 => {
            let k = (j + 1 + t.draw(n as u32 - 1) as usize) % n;
            s.bytes[5 + 2 * j] = s.bytes[5 + 2 * k];
            m.what = format!("component {} twice in a scan", s.bytes[5 + 2 * j]);
        }
        4 => {
            let a = t.draw(n as u32 - 1) as usize;
            s.bytes.swap(5 + 2 * a, 7 + 2 * a);
            if t.chance(1, 2) {
                s.bytes.swap(6 + 2 * a, 8 + 2 * a);
            }
            m.what = "scan components in another order than in the frame".into();
        }
        5 => {
            let x = if im.proc == Proc::Baseline { span(t, 2, 15) } else { span(t, 4, 15) } as u8;
            let p = 6 + 2 * j;
            s.bytes[p] = if t.chance(1, 2) { x << 4 | s.bytes[p] & 15 } else { s.bytes[p] & 0xf0 | x };
            m.what = format!("table selectors {:02x} in a scan", s.bytes[p]);
            if x < 4 && t.chance(1, 2) {
                // the tables are there, in front of the frame header, so it is the selector that has to be refused
                let mut body = vec![];
                for class in 0..2 {
                    body.push(class << 4 | x);
                    body.extend([0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0]);
                    body.extend(0..12);
                }
                m.segs.insert(f, Seg::marker(K::Dht, 0xc4, &body));
                m.what += ", which exist";
            }
        }
        6 => {
            // equal or even ratios, and more than 10 blocks in an MCU
            let first = &im.scans[num(&m.segs[sos[0]])].comps;
            let all: &[[u8; 4]] = match first.len() {
                2 => &[[0x24, 0x24, 0, 0], [0x42, 0x42, 0, 0], [0x44, 0x22, 0, 0], [0x44, 0x44, 0, 0], [0x32, 0x32, 0, 0]],
                3 => &[[0x22, 0x22, 0x22, 0], [0x41, 0x41, 0x41, 0], [0x14, 0x14, 0x14, 0], [0x42, 0x21, 0x21, 0], [0x24, 0x12, 0x12, 0], [0x44, 0x22, 0x22, 0], [0x44, 0x44, 0x44, 0]],
                _ => &[[0x22, 0x22, 0x22, 0x22], [0x31, 0x31, 0x31, 0x31], [0x13, 0x13, 0x13, 0x13], [0x22, 0x22, 0x21, 0x21], [0x42, 0x21, 0x21, 0x21], [0x44, 0x44, 0x44, 0x44], [0x22, 0x21, 0x22, 0x21]],
            };
            let fs = *t.pick(all);
            let first = first.clone();
            for c in 0..im.comps.len() {
                let x = first.iter().position(|&i| i == c).map_or(*fs.last().unwrap().max(&fs[first.len() - 1]), |p| fs[p]);
                m.segs[f].bytes[11 + 3 * c] = x;
            }
            m.what = format!("factors {:02x?} give more than 10 blocks in an MCU", fs);
        }
        7 => {
            let (ss, se, aa) = (tail, tail + 1, tail + 2);
            match im.proc {
                Proc::Progressive => match t.weighted(&[2, if sc.ss > 0 { 2 } else { 0 }, if sc.ss == 0 { 2 } else { 0 }, 2, 2, 2]) {
                    0 => s.bytes[se] = span(t, 64, 255) as u8,
                    1 => {
                        let e = 2 + t.draw(61);
                        s.bytes[se] = e as u8 - 1;
                        s.bytes[ss] = span(t, e, 63) as u8;
                    }
                    2 => s.bytes[se] = span(t, 1, 63) as u8,
                    3 => {
                        let l = 14 + t.draw(2) as u8;
                        s.bytes[aa] = if t.chance(1, 2) { l } else { 0xf0 | l };
                    }
                    4 => s.bytes[aa] = *t.pick(&[0xed, 0xfe, 0xee, 0xe0, 0xff]),
                    _ => {
                        let (h, l) = loop {
                            let (h, l) = (1 + t.draw(13) as u8, t.draw(14) as u8);
                            if h != l + 1 {
                                break (h, l);
                            }
                        };
                        s.bytes[aa] = h << 4 | l;
                    }
                },
                Proc::Lossless => match t.draw(4) {
                    0 => s.bytes[se] = span(t, 1, 255) as u8,
                    1 => s.bytes[aa] |= (span(t, 1, 15) << 4) as u8,
                    2 => s.bytes[ss] = span(t, 8, 255) as u8,
                    _ => {
                        if im.precision > 15 {
                            s.bytes[se] = 63;
                        } else {
                            s.bytes[aa] = span(t, im.precision as u32, 15) as u8;
                        }
                    }
                },
                _ => match t.draw(4) {
                    0 => {
                        s.bytes[ss] = span(t, 1, 255) as u8;
                    }
                    1 => {
                        s.bytes[se] = loop {
                            let e = span(t, 1, 255) as u8;
                            if e != 63 {
                                break e;
                            }
                        }
                    }
                    2 => s.bytes[aa] = (span(t, 1, 15) << 4) as u8,
                    _ => s.bytes[aa] = span(t, 1, 15) as u8,
                },
            }
            m.what = format!("scan parameters {:02x?}", &m.segs[at].bytes[tail..]);
        }
        _ => {
            let e = 1 + t.draw(63) as u8;
            s.bytes[tail + 1] = e;
            s.bytes[tail] = 1 + t.draw(e as u32) as u8;
            m.what = format!("{} components in a scan of coefficients {} to {}", n, s.bytes[tail], e);
        }
    }
}
fn num(s: &Seg) -> usize {
    match s.k {
        K::Sos(i) | K::Ecs(i) => i,
        _ => 0,
    }
}

fn table(t: &mut Tape, im: &Image, m: &mut Made, f: usize) {
    let dqt = find(&m.segs, |k| *k == K::Dqt);
    let dht = find(&m.segs, |k| *k == K::Dht);
    let dri = find(&m.segs, |k| *k == K::Dri);
    let adobe: Vec<usize> = (0..m.segs.len()).filter(|&i| m.segs[i].k == K::App(14) && m.segs[i].bytes[4..].starts_with(b"Adobe\0") && m.segs[i].bytes.len() >= 16).collect();
    match t.weighted(&[if dqt.is_empty() { 0 } else { 5 }, if dht.is_empty() { 0 } else { 8 }, if dri.is_empty() { 0 } else { 2 }, if adobe.is_empty() { 0 } else { 2 }]) {
        0 => {
            let at = *t.pick(&dqt);
            m.early = at < f;
            let s = &mut m.segs[at];
            let tabs = dqt_tables(&s.bytes);
            let p = *t.pick(&tabs);
            let wide = (s.bytes[p] >> 4) as usize;
            match t.draw(4) {
                0 => {
                    s.bytes[p] = s.bytes[p] & 15 | (span(t, 2, 15) << 4) as u8;
                    m.what = "precision of a quantisation table".into();
                }
                1 => {
                    s.bytes[p] = s.bytes[p] & 0xf0 | span(t, 4, 15) as u8;
                    m.what = "slot of a quantisation table".into();
                }
                2 => {
                    let last = *tabs.last().unwrap();
                    let size = s.bytes.len() - last;
                    let l = len_of(&s.bytes);
                    let l = if t.chance(1, 2) { l + span(t, 1, 64) as usize } else { l - span(t, 1, size as u32 - 1) as usize };
                    set_len(s, l);
                    m.what = format!("length {} of a quantisation table segment", l);
                }
                _ => {
                    let k = *t.pick(&[0, 63, 1, 7, 62]);
                    let k = if t.chance(1, 2) { k } else { t.draw(64) as usize };
                    for b in &mut s.bytes[p + 1 + k * (1 + wide)..][..1 + wide] {
                        *b = 0;
                    }
                    m.what = format!("quantisation table entry {} is 0", k);
                }
            }
        }
        1 => {
            let at = *t.pick(&dht);
            m.early = at < f;
            let s = &mut m.segs[at];
            let tabs = dht_tables(&s.bytes);
            let p = *t.pick(&tabs);
            let last = *tabs.last().unwrap();
            let own = s.bytes[p + 1..p + 17].iter().map(|&x| x as usize).sum::<usize>();
            match t.draw(7) {
                0 => {
                    s.bytes[p] = s.bytes[p] & 15 | (span(t, 2, 15) << 4) as u8;
                    m.what = "class of a Huffman table".into();
                }
                1 => {
                    let lo = if im.proc == Proc::Baseline && at > f { 2 } else { 4 };
                    s.bytes[p] = s.bytes[p] & 0xf0 | span(t, lo, 15) as u8;
                    m.what = "slot of a Huffman table".into();
                }
                2 => {
                    // no codes at all
                    let mut b = s.bytes.clone();
                    b.drain(p + 17..p + 17 + own);
                    b[p + 1..p + 17].fill(0);
                    if p == last && t.chance(1, 2) {
                        let pad = 1 + t.draw(20) as usize;
                        b.extend(vec![7u8; pad]);
                    }
                    s.bytes = b;
                    let l = s.bytes.len() - 2;
                    set_len(s, l);
                    m.what = "Huffman table without codes".into();
                }
                3 => {
                    // too many
                    let k = p + 9 + t.draw(8) as usize;
                    s.bytes[k] = 255;
                    let k2 = p + 1 + (k - p) % 16;
                    s.bytes[k2] = s.bytes[k2].max(span(t, 2, 255) as u8);
                    let total: usize = s.bytes[p + 1..p + 17].iter().map(|&x| x as usize).sum();
                    if t.chance(1, 2) {
                        // all of them are there
                        let mut b = s.bytes[..p + 17].to_vec();
                        b.extend((0..total).map(|x| x as u8));
                        b.extend(&s.bytes[p + 17 + own..]);
                        s.bytes = b;
                        let l = s.bytes.len() - 2;
                        set_len(s, l);
                    }
                    m.what = format!("Huffman table with {} codes", total);
                }
                4 => {
                    // more values than the segment holds
                    let k = last + 1 + t.draw(16) as usize;
                    let x = if t.chance(1, 2) { 1 } else { 1 + t.draw(100) as u8 };
                    s.bytes[k] = s.bytes[k].saturating_add(x);
                    if s.bytes[k] == 255 {
                        s.bytes[k] = 254;
                        s.bytes[last + 1 + (k - last) % 16] += 3;
                    }
                    m.what = "Huffman table longer than its segment".into();
                }
                5 => {
                    let size = s.bytes.len() - last;
                    let l = len_of(&s.bytes);
                    let l = if t.chance(1, 2) { l + span(t, 1, 17) as usize } else { l - span(t, 1, size as u32 - 1) as usize };
                    set_len(s, l);
                    m.what = format!("length {} of a Huffman table segment", l);
                }
                _ => {
                    // code lengths that leave little room, and then more codes of one length than fit
                    let d = if t.chance(1, 2) { t.draw(16) } else { t.draw(8) } as usize;
                    let mut room = 1usize;
                    s.bytes[p + 1..p + 17].fill(0);
                    for l in 0..d {
                        let left = 1 + t.draw((2 * room).min(3) as u32) as usize;
                        let left = left.min(2 * room);
                        s.bytes[p + 1 + l] = (2 * room - left) as u8;
                        room = left;
                    }
                    s.bytes[p + 1 + d] = (2 * room + 1 + t.draw(2) as usize) as u8;
                    if d < 15 && t.chance(1, 4) {
                        s.bytes[p + 2 + d] = t.draw(4) as u8;
                    }
                    let total: usize = s.bytes[p + 1..p + 17].iter().map(|&x| x as usize).sum();
                    let mut b = s.bytes[..p + 17].to_vec();
                    b.extend((0..total).map(|x| x as u8));
                    b.extend(&s.bytes[p + 17 + own..]);
                    s.bytes = b;
                    let l = s.bytes.len() - 2;
                    set_len(s, l);
                    m.what = format!("Huffman code lengths {:?} are not those of a prefix code", &s.bytes[p + 1..p + 17]);
                }
            }
        }
        2 => {
            let at = *t.pick(&dri);
            m.early = at < f;
            let l = other(t, &[4]) as usize;
            set_len(&mut m.segs[at], l);
            m.what = format!("length {} of a restart interval segment", l);
        }
        3 => {
            let at = *t.pick(&adobe);
            m.early = at < f;
            m.segs[at].bytes[15] = span(t, 3, 255) as u8;
            m.what = format!("Adobe transform {}", m.segs[at].bytes[15]);
        }
        _ => unreachable!(),
    }
}

/// Slots of class (0 DC, 1 AC) that the segments before a place define.
fn slots(segs: &[Seg], upto: usize, class: u8) -> Vec<u8> {
    let mut v = vec![];
    for s in segs[..upto].iter().filter(|s| s.k == K::Dht) {
        for p in dht_tables(&s.bytes) {
            if s.bytes[p] >> 4 == class {
                v.push(s.bytes[p] & 15);
            }
        }
    }
    v
}

fn order(t: &mut Tape, im: &Image, m: &mut Made, f: usize) {
    let sos = find(&m.segs, |k| matches!(k, K::Sos(_)));
    let dct = im.proc != Proc::Lossless;
    let end = m.segs.len();
    m.early = false;
    match t.weighted(&[3, 3, 3, 2, 3, if dct { 3 } else { 0 }, if im.mjpeg { 0 } else { 3 }, if dct { 3 } else { 0 }, if im.mjpeg { 0 } else { 4 }]) {
        0 => {
            // a scan before the frame
            let at = 1 + t.draw(f as u32) as usize;
            let i = sos[0];
            let mv: Vec<Seg> = if t.chance(1, 2) { vec![m.segs[i].clone()] } else { m.segs[i..i + 2].to_vec() };
            m.segs.splice(at..at, mv);
            m.early = true;
            m.what = "scan before the frame header".into();
        }
        1 => {
            // the end before the frame
            let at = 1 + t.draw(f as u32) as usize;
            m.segs.insert(at, Seg::new(K::Eoi, vec![0xff, 0xd9]));
            m.early = true;
            m.what = "end of image before the frame header".into();
        }
        2 => {
            // something else than an image
            m.early = true;
            let x = other(t, &[0xd8]);
            match t.draw(3) {
                0 => m.segs[0].bytes[1] = x,
                1 => m.segs[0].bytes[0] = other(t, &[0xff]),
                _ => {
                    let x = other(t, &[0xff]);
                    m.segs.insert(0, Seg::new(K::Noise, vec![x]));
                }
            }
            m.what = "no start of image".into();
        }
        3 => {
            // nothing but headers
            m.segs.retain(|s| !matches!(s.k, K::Sos(_) | K::Ecs(_)));
            m.what = "no scan".into();
        }
        4 => {
            // a marker that has no place there
            let ok: Vec<usize> = (1..end).filter(|&i| !matches!(m.segs[i].k, K::Ecs(_))).collect();
            let at = *t.pick(&ok);
            let after = matches!(m.segs[at - 1].k, K::Ecs(_));
            let x = match t.weighted(&[2, 1, 2, 2, 2, if after { 0 } else { 3 }, if after { 0 } else { 2 }]) {
                0 => 0xd8,
                1 => 0x01,
                2 => 2 + t.draw(0xbe) as u8,
                3 => 0xc8,
                4 => 0xf0 + t.draw(14) as u8,
                5 => 0xd0 + t.draw(8) as u8,
                _ => 0xdc,
            };
            let s = if x == 0xdc || x == 0xc8 || x >= 0xf0 {
                let b = (im.h as u16).to_be_bytes();
                Seg::marker(K::Noise, x, &b)
            } else {
                Seg::new(K::Noise, vec![0xff, x])
            };
            m.segs.insert(at, s);
            m.early = at <= f;
            m.what = format!("marker {:02x} at segment {}", x, at);
        }
        5 => {
            m.segs.retain(|s| s.k != K::Dqt);
            m.what = "no quantisation tables".into();
        }
        6 => {
            m.segs.retain(|s| s.k != K::Dht);
            m.what = "no Huffman tables".into();
        }
        7 => {
            // a quantisation table that is not there
            let all: Vec<u8> = m.segs.iter().filter(|s| s.k == K::Dqt).flat_map(|s| dqt_tables(&s.bytes).into_iter().map(|p| s.bytes[p] & 15).collect::<Vec<_>>()).collect();
            let free: Vec<u8> = (0..4).filter(|x| !all.contains(x)).collect();
            if free.is_empty() {
                m.segs.retain(|s| s.k != K::Dqt);
                m.what = "no quantisation tables".into();
                return;
            }
            let i = t.draw(im.comps.len() as u32) as usize;
            m.segs[f].bytes[12 + 3 * i] = *t.pick(&free);
            m.what = format!("component {} uses an undefined quantisation table", i);
        }
        _ => {
            // a Huffman table that is not there, or not yet
            let mut all = vec![];
            for &at in &sos {
                let sc = &im.scans[num(&m.segs[at])];
                for class in 0..2u8 {
                    let used = if im.proc == Proc::Lossless { class == 0 } else if class == 0 { sc.ss == 0 && sc.ah == 0 } else { sc.se > 0 };
                    if !used {
                        continue;
                    }
                    let have = slots(&m.segs, at, class);
                    for x in 0..if im.proc == Proc::Baseline { 2 } else { 4 } {
                        if !have.contains(&x) {
                            all.push((at, class, x));
                        }
                    }
                }
            }
            if all.is_empty() {
                m.segs.retain(|s| s.k != K::Dht);
                m.what = "no Huffman tables".into();
                return;
            }
            let (at, class, x) = *t.pick(&all);
            let s = &mut m.segs[at];
            let p = 6 + 2 * t.draw(s.bytes[4] as u32) as usize;
            s.bytes[p] = if class == 0 { x << 4 | s.bytes[p] & 15 } else { s.bytes[p] & 0xf0 | x };
            m.what = format!("scan {} uses an undefined Huffman table of class {}", num(s), class);
        }
    }
}

/// Any segment with a length: one that does not even cover itself.
fn length(t: &mut Tape, m: &mut Made, f: usize) {
    let ok: Vec<usize> = (1..m.segs.len()).filter(|&i| !matches!(m.segs[i].k, K::Ecs(_) | K::Eoi | K::Noise)).collect();
    let at = *t.pick(&ok);
    let l = t.draw(2) as usize;
    set_len(&mut m.segs[at], l);
    m.early = at <= f;
    m.what = format!("length {} of {:?}", l, m.segs[at].k);
}

/// Inside entropy-coded data: a wrong marker between restart intervals, or a code that no table has.
fn data(t: &mut Tape, im: &Image, m: &mut Made) -> bool {
    m.early = false;
    let ecs = find(&m.segs, |k| matches!(k, K::Ecs(_)));
    let multi: Vec<usize> = ecs.iter().copied().filter(|&i| m.segs[i].ivs.len() > 1).collect();
    // the all-ones code is never assigned; refinements of DC coefficients have no codes
    let coded: Vec<usize> = ecs.iter().copied().filter(|&i| !(im.scans[num(&m.segs[i])].ss == 0 && im.scans[num(&m.segs[i])].ah > 0)).collect();
    if !multi.is_empty() && t.chance(2, 3) {
        let at = *t.pick(&multi);
        let s = &mut m.segs[at];
        let k = 1 + t.draw(s.ivs.len() as u32 - 1) as usize;
        let off: usize = s.ivs[..k].iter().map(|v| v.len()).sum::<usize>() + 2 * (k - 1);
        let was = s.bytes[off + 1];
        assert!(s.bytes[off] == 0xff && was & 0xf8 == 0xd0);
        let x = match t.weighted(&[3, 1, 2]) {
            0 => 0xd0 + (was + 1 + t.draw(7) as u8) % 8,
            1 => *t.pick(&[0xd8, 0xd9, 0xda, 0xc4, 0xfe, 0xdd]),
            _ => 1 + t.draw(254) as u8,
        };
        if x == was {
            return false;
        }
        s.bytes[off + 1] = x;
        m.what = format!("marker {:02x} instead of {:02x} after interval {}", x, was, k - 1);
    } else if !coded.is_empty() {
        let at = *t.pick(&coded);
        let s = &mut m.segs[at];
        let k = t.draw(s.ivs.len() as u32) as usize;
        s.ivs[k] = [0xff, 0].repeat(2 + t.draw(6) as usize);
        s.join();
        m.what = format!("interval {} has a code that is never assigned", k);
    } else {
        return false;
    }
    true
}

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { max_w: 40, max_h: 40, wide: 20, mass: 0, ..Opt::any() };
    let im = generate(t, &o);
    note_image(&im);
    tr!("image: {}", describe(&im));
    let mut m = Made { segs: im.segs.clone(), what: String::new(), early: false };
    let f = m.segs.iter().position(|s| s.k == K::Sof).unwrap();
    let tables = m.segs.iter().any(|s| matches!(s.k, K::Dqt | K::Dht));
    match t.weighted(&[6, 8, if tables { 7 } else { 0 }, 6, 2, 3]) {
        0 => {
            frame(t, &im, &mut m, f);
            cnt(C::FaultHdrFrame);
        }
        1 => {
            scan(t, &im, &mut m, f);
            cnt(C::FaultHdrScan);
        }
        2 => {
            table(t, &im, &mut m, f);
            cnt(C::FaultHdrTable);
        }
        3 => {
            order(t, &im, &mut m, f);
            cnt(C::FaultHdrOrder);
        }
        4 => {
            length(t, &mut m, f);
            cnt(C::FaultHdrLength);
        }
        _ => {
            if !data(t, &im, &mut m) {
                discard();
                return;
            }
            cnt(C::FaultCode);
        }
    }
    tr!("made: {} (early {})", m.what, m.early);
    let data = Arc::new(assemble(&m.segs));
    let mut ops = vec![];
    for _ in 0..t.weighted(&[3, 2, 1]) {
        ops.push(if t.chance(1, 2) {
            let (a, b) = draw_request(t, im.w, im.h);
            Op::Scale(a, b)
        } else {
            Op::ReadInfo
        });
    }
    let times = if t.chance(1, 60) { 1 + t.draw(300) as usize } else { 1 + t.weighted(&[2, 1, 1]) };
    for _ in 0..times {
        ops.push(Op::Decode);
    }
    for _ in 0..t.weighted(&[4, 1]) {
        ops.push(Op::ReadInfo);
    }
    let plan = if t.chance(1, 3) { Plan::draw_benign(t) } else { Plan::plain() };
    let caller = draw_caller(t);
    let pool = draw_pool(t);
    tr!("calls {:?}", ops);
    tr_bytes("data", &data);
    start(c, pool, WELL_FORMED_BUDGET);
    nontrivial();
    let got = on(caller, || {
        let mut s = Subj::new(&data, plan.clone());
        run_ops(&mut s, &ops)
    });
    check_worker_panics();
    let mut refused = false;
    for (k, g) in got.iter().enumerate() {
        tr!("{:?} -> {}", ops[k], g.val.brief());
        check_no_panic(&g.val, "a call");
        let fail = g.val.fail();
        if refused {
            // only the header that was read before stays known
            if fail.is_none() && (m.early || !matches!(ops[k], Op::ReadInfo)) {
                violation("malformed-later", &format!("call {} ({:?}) succeeds after the stream was refused", k, ops[k]));
                return;
            }
            continue;
        }
        if !m.early && !matches!(ops[k], Op::Decode) {
            if let Some(f) = fail {
                violation("malformed-early", &format!("call {} ({:?}) fails before the malformed part ({}): {}", k, ops[k], m.what, f.short()));
                return;
            }
            continue;
        }
        if m.early && g.info.is_some() {
            violation("malformed-info", &format!("info() after call {} ({:?}), although the header was refused: {}", k, ops[k], m.what));
            return;
        }
        match fail {
            Some(Fail::Format(_)) => refused = true,
            Some(f) => {
                violation("malformed-kind", &format!("call {} ({:?}) returns {}, expected a format error: {}", k, ops[k], f.short(), m.what));
                return;
            }
            None => {
                violation("malformed-accepted", &format!("call {} ({:?}) succeeds although the stream is malformed: {}", k, ops[k], m.what));
                return;
            }
        }
    }
}
