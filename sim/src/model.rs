//! Sequential reference model: what a plain single-threaded decoder obtains from the
//! coefficients (or lossless samples) that the generator put into an image.
use crate::jpeg::{Image, Proc, Scan, Xf, ZZ};

fn f2f(x: f32) -> i32 {
    (x * 4096.0 + 0.5) as i32
}
fn clamp(x: i32) -> u8 {
    x.clamp(0, 255) as u8
}

/// One-dimensional inverse DCT of the reference (integer, 12 fractional bits).
fn kernel(s: [i32; 8], bias: i32) -> [i32; 8] {
    let m = |a: i32, b: f32| a.wrapping_mul(f2f(b));
    let p1 = m(s[2].wrapping_add(s[6]), 0.5411961);
    let t2 = p1.wrapping_add(m(s[6], -1.847759065));
    let t3 = p1.wrapping_add(m(s[2], 0.765366865));
    let t0 = s[0].wrapping_add(s[4]) << 12;
    let t1 = s[0].wrapping_sub(s[4]) << 12;
    let e = [
        t0.wrapping_add(t3).wrapping_add(bias),
        t1.wrapping_add(t2).wrapping_add(bias),
        t1.wrapping_sub(t2).wrapping_add(bias),
        t0.wrapping_sub(t3).wrapping_add(bias),
    ];
    let p5 = m(s[7].wrapping_add(s[3]).wrapping_add(s[5].wrapping_add(s[1])), 1.175875602);
    let q1 = p5.wrapping_add(m(s[7].wrapping_add(s[1]), -0.899976223));
    let q2 = p5.wrapping_add(m(s[5].wrapping_add(s[3]), -2.562915447));
    let q3 = m(s[7].wrapping_add(s[3]), -1.961570560);
    let q4 = m(s[5].wrapping_add(s[1]), -0.390180644);
    let o = [
        m(s[1], 1.501321110).wrapping_add(q1).wrapping_add(q4),
        m(s[3], 3.072711026).wrapping_add(q2).wrapping_add(q3),
        m(s[5], 2.053119869).wrapping_add(q2).wrapping_add(q4),
        m(s[7], 0.298631336).wrapping_add(q1).wrapping_add(q3),
    ];
    let mut r = [0; 8];
    for i in 0..4 {
        r[i] = e[i].wrapping_add(o[i]);
        r[7 - i] = e[i].wrapping_sub(o[i]);
    }
    r
}

/// Dequantise and transform one block to n x n samples.
pub fn idct(n: usize, c: &[i16; 64], q: &[u16; 64]) -> [u8; 64] {
    let d = |i: usize| (c[i] as i32).wrapping_mul(q[i] as i32);
    let mut out = [0u8; 64];
    match n {
        8 => {
            let mut t = [0i32; 64];
            for x in 0..8 {
                let col: [i32; 8] = std::array::from_fn(|y| d(y * 8 + x));
                if col[1..] == [0; 7] {
                    for y in 0..8 {
                        t[y * 8 + x] = col[0] << 2;
                    }
                } else {
                    let r = kernel(col, 512);
                    for y in 0..8 {
                        t[y * 8 + x] = r[y] >> 10;
                    }
                }
            }
            for y in 0..8 {
                let row: [i32; 8] = std::array::from_fn(|x| t[y * 8 + x]);
                let r = kernel(row, 65536 + (128 << 17));
                for x in 0..8 {
                    out[y * 8 + x] = clamp(r[x] >> 17);
                }
            }
        }
        4 => {
            let pass = |s: [i32; 4]| {
                let p1 = (s[1].wrapping_add(s[3])).wrapping_mul(f2f(0.541196100));
                let a = p1.wrapping_add(s[3].wrapping_mul(f2f(-1.847759065)));
                let b = p1.wrapping_add(s[1].wrapping_mul(f2f(0.765366865)));
                (s[0].wrapping_add(s[2]), s[0].wrapping_sub(s[2]), a, b)
            };
            let mut t = [0i32; 16];
            for x in 0..4 {
                let (p, m, a, b) = pass([d(x), d(8 + x), d(16 + x), d(24 + x)]);
                let (p, m) = (p << 2, m << 2);
                let (a, b) = (a.wrapping_add(512) >> 10, b.wrapping_add(512) >> 10);
                t[x] = p.wrapping_add(b);
                t[12 + x] = p.wrapping_sub(b);
                t[4 + x] = m.wrapping_add(a);
                t[8 + x] = m.wrapping_sub(a);
            }
            for y in 0..4 {
                let (p, m, a, b) = pass([t[y * 4], t[y * 4 + 1], t[y * 4 + 2], t[y * 4 + 3]]);
                let bias = (1 << 16) + (128 << 17);
                let (p, m) = ((p << 12).wrapping_add(bias), (m << 12).wrapping_add(bias));
                out[y * 4] = clamp(p.wrapping_add(b) >> 17);
                out[y * 4 + 3] = clamp(p.wrapping_sub(b) >> 17);
                out[y * 4 + 1] = clamp(m.wrapping_add(a) >> 17);
                out[y * 4 + 2] = clamp(m.wrapping_sub(a) >> 17);
            }
        }
        2 => {
            let (a, b) = (d(0).wrapping_add(d(8)), d(0).wrapping_sub(d(8)));
            let (e, f) = (d(1).wrapping_add(d(9)), d(1).wrapping_sub(d(9)));
            let bias = 4 + (128 << 3);
            out[0] = clamp(a.wrapping_add(e).wrapping_add(bias) >> 3);
            out[1] = clamp(a.wrapping_sub(e).wrapping_add(bias) >> 3);
            out[2] = clamp(b.wrapping_add(f).wrapping_add(bias) >> 3);
            out[3] = clamp(b.wrapping_sub(f).wrapping_add(bias) >> 3);
        }
        _ => out[0] = clamp(d(0).wrapping_add(1024) / 8),
    }
    out
}

pub struct Plane {
    pub w: usize,
    pub h: usize,
    pub px: Vec<u8>,
}

fn cdiv(a: usize, b: usize) -> usize {
    a.div_ceil(b)
}

/// Coefficients of each component as known after the listed scans of the image.
pub fn received(im: &Image, have: &[bool]) -> Vec<Vec<[i16; 64]>> {
    if have.iter().all(|x| *x) {
        return im.coefs.clone();
    }
    im.comps
        .iter()
        .enumerate()
        .map(|(ci, _)| {
            // precision with which each coefficient has arrived
            let mut al: [Option<u8>; 64] = [None; 64];
            for (s, sc) in im.scans.iter().enumerate() {
                if have[s] && sc.comps.contains(&ci) {
                    for k in sc.ss..=sc.se {
                        al[k as usize] = Some(sc.al);
                    }
                }
            }
            im.coefs[ci]
                .iter()
                .map(|b| {
                    let mut o = [0i16; 64];
                    for k in 0..64 {
                        if let Some(a) = al[k] {
                            let v = b[ZZ[k]] as i32;
                            let t = if k == 0 { (v >> a) << a } else if v < 0 { -((-v >> a) << a) } else { (v >> a) << a };
                            o[ZZ[k]] = t as i16;
                        }
                    }
                    o
                })
                .collect()
        })
        .collect()
}

/// Scale factor (in eighths) and dimensions that scale(w, h) must select.
pub fn choose_scale(w: usize, h: usize, rw: usize, rh: usize) -> usize {
    for s in [1, 2, 4] {
        if cdiv(w * s, 8) >= rw || cdiv(h * s, 8) >= rh {
            return s;
        }
    }
    8
}

pub fn planes(im: &Image, coefs: &[Vec<[i16; 64]>], s: usize) -> Vec<Plane> {
    im.comps
        .iter()
        .enumerate()
        .map(|(ci, c)| {
            let w = cdiv(im.w * c.h * s, im.hmax * 8);
            let h = cdiv(im.h * c.v * s, im.vmax * 8);
            let mut px = vec![0u8; w * h];
            for by in 0..cdiv(h, s) {
                for bx in 0..cdiv(w, s) {
                    let b = idct(s, &coefs[ci][by * c.bw + bx], &im.qts[ci]);
                    for y in 0..s.min(h - by * s) {
                        for x in 0..s.min(w - bx * s) {
                            px[(by * s + y) * w + bx * s + x] = b[y * s + x];
                        }
                    }
                }
            }
            Plane { w, h, px }
        })
        .collect()
}

/// Sample of a component at an output pixel (triangle filter for factor 2 in the directions
/// that use it, nearest neighbour otherwise).
fn upsampled(p: &Plane, fh: usize, fv: usize, ow: usize, oh: usize, x: usize, y: usize) -> u8 {
    let fh = if ow == 1 { 1 } else { fh };
    let fv = if oh == 1 { 1 } else { fv };
    let at = |x: usize, y: usize| p.px[y * p.w + x] as u32;
    let near = |i: usize, n: usize| {
        let a = i / 2;
        let b = if i % 2 == 1 { (a + 1).min(n - 1) } else { a.saturating_sub(1) };
        (a, b)
    };
    match (fh, fv) {
        (1, 1) => at(x, y) as u8,
        (2, 1) => {
            let (a, b) = near(x, p.w);
            if a == b {
                at(a, y) as u8
            } else {
                ((3 * at(a, y) + at(b, y) + 2) >> 2) as u8
            }
        }
        (1, 2) => {
            let (a, b) = near(y, p.h);
            ((3 * at(x, a) + at(x, b) + 2) >> 2) as u8
        }
        (2, 2) => {
            let (a, b) = near(y, p.h);
            let col = |x: usize| 3 * at(x, a) + at(x, b);
            let (l, r) = near(x, p.w);
            if l == r {
                ((col(l) + 2) >> 2) as u8
            } else {
                ((3 * col(l) + col(r) + 8) >> 4) as u8
            }
        }
        _ => at(x / fh, y / fv) as u8,
    }
}

fn ycc(y: u8, cb: u8, cr: u8) -> [u8; 3] {
    let f = |x: f32| (x * (1 << 20) as f32 + 0.5) as i32;
    let y = ((y as i32) << 20) + (1 << 19);
    let (cb, cr) = (cb as i32 - 128, cr as i32 - 128);
    [clamp((y + f(1.40200) * cr) >> 20), clamp((y - f(0.34414) * cb - f(0.71414) * cr) >> 20), clamp((y + f(1.77200) * cb) >> 20)]
}

#[derive(Clone)]
pub struct Render {
    pub w: usize,
    pub h: usize,
    pub bpp: usize,
    pub px: Vec<u8>,
}

/// Pixels for the given coefficients at scale s/8 with colour transform xf.
pub fn render(im: &Image, coefs: &[Vec<[i16; 64]>], s: usize, xf: Xf) -> Render {
    if im.proc == Proc::Lossless {
        return render_lossless(im);
    }
    let pl = planes(im, coefs, s);
    let (ow, oh) = (cdiv(im.w * s, 8), cdiv(im.h * s, 8));
    let n = im.comps.len();
    let mut px = Vec::with_capacity(ow * oh * n);
    for y in 0..oh {
        for x in 0..ow {
            let mut v = [0u8; 4];
            for (i, c) in im.comps.iter().enumerate() {
                v[i] = if n == 1 { pl[0].px[y * pl[0].w + x] } else { upsampled(&pl[i], im.hmax / c.h, im.vmax / c.v, ow, oh, x, y) };
            }
            if n > 1 {
                match xf {
                    Xf::YCbCr => {
                        let r = ycc(v[0], v[1], v[2]);
                        v[..3].copy_from_slice(&r);
                    }
                    Xf::Ycck => {
                        let r = ycc(v[0], v[1], v[2]);
                        v = [r[0], r[1], r[2], 255 - v[3]];
                    }
                    Xf::Cmyk => v = [255 - v[0], 255 - v[1], 255 - v[2], 255 - v[3]],
                    _ => {}
                }
            }
            px.extend(&v[..n]);
        }
    }
    Render { w: ow, h: oh, bpp: n, px }
}

fn render_lossless(im: &Image) -> Render {
    let n = im.comps.len();
    let mut px = vec![];
    let deep = im.precision > 8;
    for i in 0..im.w * im.h {
        for c in 0..n {
            let v = im.samples[c][i];
            if deep {
                px.extend(v.to_ne_bytes());
            } else {
                px.push(v as u8);
            }
        }
    }
    Render { w: im.w, h: im.h, bpp: n * (1 + deep as usize), px }
}

/// Blocks (component, x, y) coded by restart interval `iv` of scan `sc`.
pub fn interval_blocks(im: &Image, sc: &Scan, iv: usize) -> Vec<(usize, usize, usize)> {
    let m = crate::jpeg::mcu_blocks(im, sc);
    let ri = if sc.ri == 0 { m.len() } else { sc.ri };
    m[iv * ri..((iv + 1) * ri).min(m.len())].iter().flatten().map(|&(i, x, y)| (sc.comps[i], x, y)).collect()
}

/// Pixels at scale s that may depend on the listed blocks.
pub fn affected(im: &Image, blocks: &[(usize, usize, usize)], s: usize) -> Vec<bool> {
    let (ow, oh) = (cdiv(im.w * s, 8), cdiv(im.h * s, 8));
    let mut m = vec![false; ow * oh];
    for &(ci, bx, by) in blocks {
        let c = &im.comps[ci];
        let (fh, fv) = (im.hmax / c.h, im.vmax / c.v);
        let span = |b: usize, f: usize, n: usize| {
            let lo = b * s;
            let hi = lo + s;
            // one sample of filter support where the triangle filter is used
            let (lo, hi) = if f == 2 { (lo.saturating_sub(1), hi + 1) } else { (lo, hi) };
            ((lo * f).min(n), (hi * f).min(n))
        };
        let (x0, x1) = span(bx, fh, ow);
        let (y0, y1) = span(by, fv, oh);
        for y in y0..y1 {
            for x in x0..x1 {
                m[y * ow + x] = true;
            }
        }
    }
    m
}
