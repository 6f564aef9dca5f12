//! Independent JPEG image generator and encoder: builds images from coefficients (or, for the
//! lossless process, samples), so that the exact decoded result is known by construction.
use crate::tape::{Rng, Tape};

#[rustfmt::skip]
pub static ZZ: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21,
    28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54,
    47, 55, 62, 63,
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Proc {
    Baseline,
    Extended,
    Progressive,
    Lossless,
}

#[derive(Clone, Debug)]
pub struct Comp {
    pub id: u8,
    pub h: usize,
    pub v: usize,
    pub tq: usize,
    /// padded block grid
    pub bw: usize,
    pub bh: usize,
    /// blocks in a non-interleaved scan
    pub nw: usize,
    pub nh: usize,
}

#[derive(Clone, Debug)]
pub struct Scan {
    pub comps: Vec<usize>,
    pub ss: u8,
    pub se: u8,
    pub ah: u8,
    pub al: u8,
    pub ri: usize,
    /// number of MCUs
    pub mcus: usize,
    pub intervals: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Soi,
    App(u8),
    Com,
    Dqt,
    Dht,
    Dri,
    Sof,
    Sos(usize),
    Ecs(usize),
    Eoi,
    Noise,
}
#[derive(Clone, Debug)]
pub struct Seg {
    pub k: K,
    pub bytes: Vec<u8>,
    /// Ecs only: entropy-coded bytes of each restart interval, without the markers
    pub ivs: Vec<Vec<u8>>,
}
impl Seg {
    pub fn new(k: K, bytes: Vec<u8>) -> Seg {
        Seg { k, bytes, ivs: vec![] }
    }
    pub fn marker(k: K, code: u8, body: &[u8]) -> Seg {
        let mut b = vec![0xff, code];
        b.extend(((body.len() + 2) as u16).to_be_bytes());
        b.extend(body);
        Seg::new(k, b)
    }
    pub fn ecs(scan: usize, ivs: Vec<Vec<u8>>) -> Seg {
        let mut s = Seg { k: K::Ecs(scan), bytes: vec![], ivs };
        s.join();
        s
    }
    pub fn join(&mut self) {
        self.bytes.clear();
        for (i, iv) in self.ivs.iter().enumerate() {
            if i > 0 {
                self.bytes.extend([0xff, 0xd0 + ((i - 1) % 8) as u8]);
            }
            self.bytes.extend(iv);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Xf {
    Gray,
    Rgb,
    YCbCr,
    Cmyk,
    Ycck,
    /// samples interleaved without conversion
    None,
}

#[derive(Clone, Debug)]
pub struct Image {
    pub proc: Proc,
    pub precision: u8,
    pub w: usize,
    pub h: usize,
    pub comps: Vec<Comp>,
    pub hmax: usize,
    pub vmax: usize,
    pub mx: usize,
    pub my: usize,
    /// per component, padded grid, natural order
    pub coefs: Vec<Vec<[i16; 64]>>,
    /// quantisation table per component (natural order)
    pub qts: Vec<[u16; 64]>,
    /// lossless: samples
    pub samples: Vec<Vec<u16>>,
    pub scans: Vec<Scan>,
    pub segs: Vec<Seg>,
    pub xf: Xf,
    pub exif: Option<Vec<u8>>,
    pub xmp: Option<Vec<u8>>,
    pub icc: Option<Vec<u8>>,
    pub mjpeg: bool,
}

pub fn assemble(segs: &[Seg]) -> Vec<u8> {
    let mut v = Vec::new();
    for s in segs {
        v.extend_from_slice(&s.bytes);
    }
    v
}

#[derive(Clone, Debug)]
pub struct Opt {
    /// weights: baseline, extended, progressive, lossless
    pub procs: [u32; 4],
    /// per cent of images that are wide enough for worker threads
    pub wide: u32,
    pub max_w: usize,
    pub max_h: usize,
    /// weights for 1, 3, 4 components
    pub ncomp: [u32; 3],
    /// weights for restart intervals: none, some
    pub restart: [u32; 2],
    pub meta: bool,
    pub mjpeg: bool,
    /// only coefficients that come from real pixel blocks
    pub tame: bool,
    pub tables: bool,
    /// per cent of images with multi-component lossless scans split up, restart etc.
    pub lossless_features: bool,
    /// per cent of images with extreme coefficients and arbitrary correction bits (damaged images only)
    pub hostile: u32,
    /// first scans of progressive images may leave out more than two bits
    pub deep: bool,
    /// of 10000 images, how many have more blocks or longer lines than all others
    pub huge: u32,
    /// of 10000 images, how many have hundreds of scans, of blocks per restart interval, or of repeated segments
    pub mass: u32,
    /// every coefficient in scans of its own
    pub many_scans: bool,
}
impl Opt {
    pub fn any() -> Opt {
        Opt {
            procs: [4, 2, 4, 2],
            wide: 25,
            max_w: 48,
            max_h: 48,
            ncomp: [2, 4, 2],
            restart: [2, 1],
            meta: true,
            mjpeg: true,
            tame: !cfg!(feature = "pi"),
            tables: true,
            lossless_features: true,
            hostile: 0,
            deep: true,
            huge: 20,
            mass: 15,
            many_scans: false,
        }
    }
}

fn cdiv(a: usize, b: usize) -> usize {
    a.div_ceil(b)
}

// ---------- Huffman tables ----------

#[derive(Clone, Debug, PartialEq)]
pub struct HTab {
    pub counts: [u8; 16],
    pub values: Vec<u8>,
    code: Vec<u32>,
    len: Vec<u8>,
}
impl HTab {
    pub fn new(counts: [u8; 16], values: Vec<u8>) -> HTab {
        let mut code = vec![0; 256];
        let mut len = vec![0; 256];
        let mut c = 0u32;
        let mut k = 0;
        for l in 0..16 {
            for _ in 0..counts[l] {
                code[values[k] as usize] = c;
                len[values[k] as usize] = l as u8 + 1;
                c += 1;
                k += 1;
            }
            c <<= 1;
        }
        HTab { counts, values, code, len }
    }
    fn has(&self, s: u8) -> bool {
        self.len[s as usize] > 0
    }
    /// A random prefix code for the symbols: random tree, all-ones code left unused.
    fn random(symbols: &[u8], r: &mut Rng, style: u32) -> HTab {
        let n = symbols.len();
        let mut leaves: Vec<u8> = vec![0]; // depths
        while leaves.len() < n + 1 {
            // split a leaf
            let cands: Vec<usize> = (0..leaves.len()).filter(|&i| leaves[i] < 16).collect();
            let i = match style {
                0 => {
                    // balanced: split a shallowest leaf
                    *cands.iter().min_by_key(|&&i| leaves[i]).unwrap()
                }
                1 => cands[r.below(cands.len() as u32) as usize],
                _ => {
                    // skewed: split the deepest leaf that still leaves room for the others
                    let need = n + 1 - leaves.len();
                    let d = *cands.iter().max_by_key(|&&i| leaves[i]).unwrap();
                    let cap: u64 = leaves.iter().enumerate().map(|(j, &l)| if j == d { 0 } else { (1u64 << (16 - l as u32)) - 1 }).sum();
                    let own = (1u64 << (16 - leaves[d] as u32)) - 1;
                    if cap + own >= need as u64 && r.chance(4, 5) && leaves[d] < 15 {
                        d
                    } else {
                        *cands.iter().min_by_key(|&&i| leaves[i]).unwrap()
                    }
                }
            };
            leaves[i] += 1;
            let d = leaves[i];
            leaves.push(d);
        }
        leaves.sort();
        leaves.pop(); // the all-ones code
        let mut counts = [0u8; 16];
        for &d in &leaves {
            counts[d as usize - 1] = counts[d as usize - 1].wrapping_add(1);
        }
        let mut vals = symbols.to_vec();
        // random assignment of symbols to codes
        for i in (1..vals.len()).rev() {
            vals.swap(i, r.below(i as u32 + 1) as usize);
        }
        HTab::new(counts, vals)
    }
}

#[derive(Clone, Copy, Debug)]
enum Tok {
    Sym { cls: u8, tbl: u8, sym: u8 },
    Bits { v: u32, n: u8 },
    Rst,
}

fn category(v: i32) -> u8 {
    (32 - v.unsigned_abs().leading_zeros()) as u8
}
fn value_bits(v: i32, n: u8) -> u32 {
    if v < 0 {
        ((v - 1) as u32) & ((1u32 << n) - 1)
    } else {
        v as u32
    }
}

struct BitW {
    out: Vec<u8>,
    acc: u64,
    n: u32,
}
impl BitW {
    fn put(&mut self, v: u32, n: u32) {
        if n == 0 {
            return;
        }
        self.acc = (self.acc << n) | (v as u64 & ((1u64 << n) - 1));
        self.n += n;
        while self.n >= 8 {
            let b = (self.acc >> (self.n - 8)) as u8;
            self.out.push(b);
            if b == 0xff {
                self.out.push(0);
            }
            self.n -= 8;
        }
    }
    fn flush(&mut self) {
        if self.n > 0 {
            let k = 8 - self.n;
            self.put((1 << k) - 1, k);
        }
        self.acc = 0;
        self.n = 0;
    }
}

fn encode(toks: &[Tok], tabs: &[[Option<HTab>; 4]; 2]) -> Vec<Vec<u8>> {
    let mut ivs = vec![];
    let mut w = BitW { out: vec![], acc: 0, n: 0 };
    for t in toks {
        match *t {
            Tok::Sym { cls, tbl, sym } => {
                let h = tabs[cls as usize][tbl as usize].as_ref().unwrap();
                debug_assert!(h.has(sym));
                w.put(h.code[sym as usize], h.len[sym as usize] as u32);
            }
            Tok::Bits { v, n } => w.put(v, n as u32),
            Tok::Rst => {
                w.flush();
                ivs.push(std::mem::take(&mut w.out));
            }
        }
    }
    w.flush();
    ivs.push(w.out);
    ivs
}

// ---------- forward DCT ----------

fn cos_tab() -> &'static [[f32; 8]; 8] {
    use std::sync::OnceLock;
    static T: OnceLock<[[f32; 8]; 8]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [[0f32; 8]; 8];
        for (u, row) in t.iter_mut().enumerate() {
            for (x, c) in row.iter_mut().enumerate() {
                let cu = if u == 0 { (0.125f64).sqrt() } else { 0.5 };
                *c = (cu * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos()) as f32;
            }
        }
        t
    })
}
fn fdct(px: &[f32; 64]) -> [f32; 64] {
    let c = cos_tab();
    let mut t = [0f32; 64];
    for y in 0..8 {
        for u in 0..8 {
            let mut s = 0.0;
            for x in 0..8 {
                s += px[y * 8 + x] * c[u][x];
            }
            t[y * 8 + u] = s;
        }
    }
    let mut o = [0f32; 64];
    for v in 0..8 {
        for u in 0..8 {
            let mut s = 0.0;
            for y in 0..8 {
                s += t[y * 8 + u] * c[v][y];
            }
            o[v * 8 + u] = s;
        }
    }
    o
}

// ---------- generation ----------

fn gen_blocks(im: &mut Image, t: &mut Tape, tame: bool) {
    let style = t.weighted(&[2, 3, 3, 2, if tame { 0 } else { 3 }]);
    let mut r = t.seed();
    if im.comps.iter().map(|c| c.bw * c.bh).sum::<usize>() > 3000 {
        // stretches of the same few blocks: long runs of blocks without coefficients
        let n = 1 + r.below(5) as usize;
        let grids: Vec<(usize, usize)> = im.comps.iter().map(|c| (c.bw, c.bh)).collect();
        for c in im.comps.iter_mut() {
            (c.bw, c.bh) = (n, 1);
        }
        fill_blocks(im, &mut r, style);
        for (i, (bw, bh)) in grids.into_iter().enumerate() {
            let pal = std::mem::take(&mut im.coefs[i]);
            (im.comps[i].bw, im.comps[i].bh) = (bw, bh);
            let len = [3, 8, 60, 4000, 40000][r.below(5) as usize];
            let bare = len > 60 || bw * bh > 20000 || r.chance(3, 4);
            let mut cur = [0i16; 64];
            im.coefs[i] = (0..bw * bh)
                .map(|_| {
                    if r.below(len) == 0 {
                        cur = pal[r.below(n as u32) as usize];
                    } else if bare {
                        cur = [0; 64];
                    }
                    cur
                })
                .collect();
        }
        return;
    }
    fill_blocks(im, &mut r, style);
}

fn fill_blocks(im: &mut Image, r: &mut Rng, style: usize) {
    im.coefs = im
        .comps
        .iter()
        .enumerate()
        .map(|(ci, c)| {
            let q = im.qts[ci];
            let mut prev_dc = 0i32;
            (0..c.bw * c.bh)
                .map(|bi| {
                    let mut blk = [0i16; 64];
                    match style {
                        0 => {
                            // flat blocks
                            let lvl = r.range(-128, 127) * 8;
                            blk[0] = (lvl / q[0] as i32) as i16;
                        }
                        1..=3 => {
                            let mut px = [0f32; 64];
                            let base = r.range(0, 255) as f32;
                            let (gx, gy) = (r.range(-20, 20) as f32, r.range(-20, 20) as f32);
                            let amp = [0.0, 10.0, 60.0, 127.0][r.below(4) as usize];
                            let hard = r.chance(1, 4);
                            for y in 0..8 {
                                for x in 0..8 {
                                    let mut v = base + gx * x as f32 + gy * y as f32;
                                    if style == 2 {
                                        v += amp * (r.range(-100, 100) as f32 / 100.0);
                                    }
                                    if style == 3 && hard && ((x ^ y ^ bi) & 1) == 0 {
                                        v = 255.0 - v;
                                    }
                                    px[y * 8 + x] = v.clamp(0.0, 255.0) - 128.0;
                                }
                            }
                            let f = fdct(&px);
                            let keep = r.below(4);
                            for k in 0..64 {
                                let z = ZZ[k];
                                if keep == 0 && k > 5 {
                                    break;
                                }
                                blk[z] = (f[z] / q[z] as f32).round() as i16;
                            }
                        }
                        _ => {
                            // sparse random coefficients over the legal range
                            let lim = (1500 / q[0] as i32).clamp(1, 1023);
                            blk[0] = r.range(-lim, lim) as i16;
                            let n = [0, 1, 2, 5, 20, 63][r.below(6) as usize];
                            for _ in 0..n {
                                let k = ZZ[1 + r.below(63) as usize];
                                let lim = (700 / q[k] as i32).clamp(1, 1023);
                                let lim = if r.chance(1, 2) { lim.min(2) } else { lim };
                                blk[k] = r.range(-lim, lim) as i16;
                                if (blk[k] as i32 * q[k] as i32).abs() > 3000 {
                                    blk[k] = 0;
                                }
                            }
                        }
                    }
                    // keep DC differences and AC values within the ranges of the process
                    let d = (blk[0] as i32 - prev_dc).clamp(-2047, 2047);
                    blk[0] = (prev_dc + d) as i16;
                    prev_dc = blk[0] as i32;
                    for v in blk[1..].iter_mut() {
                        *v = (*v).clamp(-1023, 1023);
                    }
                    blk
                })
                .collect()
        })
        .collect();
    // The DC difference range must hold for every scan order and after restarts
    for c in im.coefs.iter_mut() {
        for b in c.iter_mut() {
            b[0] = b[0].clamp(-1023, 1023);
        }
    }
}

/// Coefficients at the limits of what the decoder stores.
fn extreme_blocks(im: &mut Image, t: &mut Tape) {
    let mut r = t.seed();
    let n = 1 + r.below(40);
    let least = if im.proc == Proc::Progressive { -32768 } else { -32767 };
    for c in 0..im.coefs.len() {
        for b in im.coefs[c].iter_mut() {
            for _ in 0..r.below(n) {
                let v: i32 = match r.below(6) {
                    0 => -32768,
                    1 => 32767,
                    2 => 1 << r.below(15),
                    3 => -(1 << r.below(16)),
                    4 => -32768 + (1 << r.below(15)),
                    _ => r.range(-32768, 32767),
                };
                b[ZZ[1 + r.below(63) as usize]] = v.max(least) as i16;
            }
        }
    }
    if im.proc == Proc::Progressive {
        // 16 bits cannot be coded in an unshifted first scan
        let whole: Vec<usize> = im.scans.iter().filter(|s| s.ss > 0 && s.ah == 0 && s.al == 0).map(|s| s.comps[0]).collect();
        for c in whole {
            for b in im.coefs[c].iter_mut() {
                for v in b.iter_mut() {
                    *v = (*v).max(-32767);
                }
            }
        }
    }
}

fn gen_qt(t: &mut Tape) -> ([u16; 64], bool) {
    let style = t.weighted(&[2, 3, 2, 1, 1]);
    let mut r = t.seed();
    let mut q = [1u16; 64];
    let mut wide = false;
    match style {
        0 => {}
        1 => {
            for (k, z) in ZZ.iter().enumerate() {
                q[*z] = (3 + k as i32 / 2 + r.range(0, 6)) as u16;
            }
        }
        2 => {
            for v in q.iter_mut() {
                *v = r.range(1, 255) as u16;
            }
        }
        3 => {
            for v in q.iter_mut() {
                *v = r.range(1, 12) as u16;
            }
            wide = true;
        }
        _ => {
            for v in q.iter_mut() {
                *v = if r.chance(1, 3) { r.range(256, 65535) as u16 } else { r.range(1, 300) as u16 };
            }
            wide = true;
        }
    }
    (q, wide)
}

fn dqt_body(tq: usize, q: &[u16; 64], wide: bool) -> Vec<u8> {
    let mut b = vec![(wide as u8) << 4 | tq as u8];
    for z in ZZ {
        if wide {
            b.extend(q[z].to_be_bytes());
        } else {
            b.push(q[z] as u8);
        }
    }
    b
}

fn layout(t: &mut Tape, n: usize) -> Vec<(usize, usize)> {
    if n == 1 {
        return vec![*t.pick(&[(1, 1), (1, 1), (2, 2), (2, 1), (1, 2), (4, 4), (3, 1), (1, 4), (4, 2)])];
    }
    let presets: &[&[(usize, usize)]] = &[
        &[(1, 1), (1, 1), (1, 1), (1, 1)],
        &[(2, 2), (1, 1), (1, 1), (2, 2)],
        &[(2, 1), (1, 1), (1, 1), (2, 1)],
        &[(1, 2), (1, 1), (1, 1), (1, 2)],
        &[(2, 2), (2, 1), (1, 1), (1, 1)],
        &[(2, 2), (1, 2), (1, 1), (1, 1)],
        &[(4, 1), (1, 1), (2, 1), (1, 1)],
        &[(1, 4), (1, 1), (1, 2), (1, 1)],
        &[(4, 2), (1, 1), (1, 1), (0, 0)],
        &[(3, 1), (1, 1), (1, 1), (1, 1)],
        &[(1, 3), (1, 1), (1, 3), (1, 1)],
        &[(1, 1), (2, 2), (1, 1), (1, 1)],
        &[(1, 1), (1, 2), (2, 1), (1, 1)],
        &[(2, 2), (2, 2), (1, 1), (1, 1)],
        &[(4, 4), (2, 2), (1, 1), (4, 4)],
        &[(4, 2), (2, 2), (2, 1), (4, 1)],
        &[(2, 4), (2, 2), (1, 2), (1, 4)],
        &[(3, 3), (1, 1), (1, 3), (3, 1)],
        &[(2, 2), (2, 2), (2, 2), (2, 2)],
        &[(4, 1), (4, 1), (2, 1), (4, 1)],
    ];
    let k = t.weighted(&[6, 5, 5, 4, 2, 2, 2, 2, 1, 1, 1, 2, 2, 2, 2, 2, 2, 1, 1, 2]);
    let mut v = presets[k][..n].to_vec();
    for x in v.iter_mut() {
        if x.0 == 0 {
            *x = (4, 2);
        }
    }
    v
}

/// Draw an image and encode it. Every part of the result follows from the tape.
pub fn generate(t: &mut Tape, o: &Opt) -> Image {
    let proc = match t.weighted(&o.procs) {
        0 => Proc::Baseline,
        1 => Proc::Extended,
        2 => Proc::Progressive,
        _ => Proc::Lossless,
    };
    let n = [1, 3, 4][t.weighted(&o.ncomp)];
    if o.huge > 0 && t.chance(o.huge, 10000) {
        let long = |t: &mut Tape| match t.draw(8) {
            0 => 65535,
            1 => 65500 + t.draw(36) as usize,
            // the padding to complete blocks has no place in 16 bits
            6 | 7 => 65529 + t.draw(7) as usize,
            2 => 32750 + t.draw(40) as usize,
            3 => 16376 + t.draw(20) as usize,
            4 => 8180 + t.draw(30) as usize,
            _ => 4080 + t.draw(40) as usize,
        };
        let (w, h) = match t.weighted(&[3, 3, 3, 1]) {
            0 => (long(t), 1 + t.draw(9) as usize),
            1 => (1 + t.draw(9) as usize, long(t)),
            2 => (150 + t.draw(400) as usize, 150 + t.draw(400) as usize),
            // more than 65535 blocks
            _ => {
                let (w, h) = (2040 + t.draw(50) as usize, 2056 + t.draw(20) as usize);
                return generate_sized(t, o, if proc == Proc::Lossless { Proc::Progressive } else { proc }, 1, w, h);
            }
        };
        return generate_sized(t, o, proc, n, w, h);
    }
    if o.mass > 0 && t.chance(o.mass, 10000) {
        return generate_mass(t, o, proc, n);
    }
    let wide = o.wide > 0 && t.chance(o.wide, 100);
    let (w, h) = if wide {
        {
        let a = if t.chance(1, 4) { 180 } else { 24 };
        let b = if t.chance(1, 4) { 70 } else { 24 };
        (129 + t.draw(a) as usize, 1 + t.draw(b) as usize)
    }
    } else {
        match t.weighted(&[4, 1, 2]) {
            0 => (1 + t.draw(o.max_w as u32) as usize, 1 + t.draw(o.max_h as u32) as usize),
            1 => (1 + t.draw(3) as usize, 1 + t.draw(3) as usize),
            _ => (
                (1 + t.draw((o.max_w / 8).max(1) as u32) as usize) * 8 + t.draw(2) as usize,
                (1 + t.draw((o.max_h / 8).max(1) as u32) as usize) * 8 + t.draw(2) as usize,
            ),
        }
    };
    generate_sized(t, o, proc, n, w, h)
}

/// Hundreds of something of which there are usually few.
fn generate_mass(t: &mut Tape, o: &Opt, proc: Proc, n: usize) -> Image {
    match t.draw(3) {
        0 => {
            let o = Opt { many_scans: true, ..o.clone() };
            let (w, h) = (1 + t.draw(20) as usize, 1 + t.draw(20) as usize);
            generate_sized(t, &o, if o.procs[2] > 0 { Proc::Progressive } else { proc }, n, w, h)
        }
        1 => {
            let o = Opt { restart: [1, 4], ..o.clone() };
            let (w, h) = (129 + t.draw(270) as usize, 129 + t.draw(270) as usize);
            generate_sized(t, &o, proc, n, w, h)
        }
        _ => {
            let (w, h) = (1 + t.draw(40) as usize, 1 + t.draw(40) as usize);
            let mut im = generate_sized(t, o, proc, n, w, h);
            for _ in 0..1 + t.draw(2) {
                let at: Vec<usize> = (0..im.segs.len()).filter(|&i| matches!(im.segs[i].k, K::Dht | K::Dqt | K::Dri | K::Com)).collect();
                if at.is_empty() {
                    break;
                }
                let i = *t.pick(&at);
                let most = if t.chance(1, 3) { 4000 } else { 300 };
                let s = im.segs[i].clone();
                let times = 240 + t.draw(most) as usize;
                im.segs.splice(i..i, std::iter::repeat_n(s, times));
            }
            im
        }
    }
}

pub fn generate_sized(t: &mut Tape, o: &Opt, proc: Proc, n: usize, w: usize, h: usize) -> Image {
    let lay = if proc == Proc::Lossless { vec![(1, 1); n] } else { layout(t, n) };
    let hmax = lay.iter().map(|x| x.0).max().unwrap();
    let vmax = lay.iter().map(|x| x.1).max().unwrap();
    let (mx, my) = (cdiv(w, 8 * hmax), cdiv(h, 8 * vmax));
    let precision = if proc == Proc::Lossless {
        match t.weighted(&[4, 2, 2]) {
            0 => 8,
            1 => 16,
            _ => 2 + t.draw(15) as u8,
        }
    } else {
        8
    };
    // colour signalling
    let mjpeg = o.mjpeg && proc == Proc::Baseline && n == 3 && t.chance(1, 12);
    let mut ids: Vec<u8> = (1..=n as u8).collect();
    let mut xf = match n {
        1 => Xf::Gray,
        3 => Xf::YCbCr,
        _ => Xf::Cmyk,
    };
    let mut jfif = false;
    let mut adobe: Option<u8> = None;
    if n == 3 {
        match t.weighted(&[4, 1, 1, 1, 1, 1]) {
            0 => jfif = t.chance(1, 2),
            1 => {
                ids = vec![82, 71, 66];
                xf = Xf::Rgb;
            }
            2 => {
                ids = vec![0, 1, 2];
                adobe = Some(0);
                xf = Xf::Rgb;
            }
            3 => {
                ids = vec![7, 5, 200];
                adobe = Some(1);
            }
            4 => {
                ids = vec![3, 2, 1];
                adobe = Some(0);
                jfif = true; // JFIF wins over Adobe
            }
            _ => ids = vec![10, 20, 30],
        }
    } else if n == 4 {
        match t.weighted(&[2, 2, 2]) {
            0 => {}
            1 => {
                adobe = Some(2);
                xf = Xf::Ycck;
            }
            _ => adobe = Some(0),
        }
        if t.chance(1, 3) {
            ids = vec![67, 77, 89, 75];
        }
    } else {
        jfif = t.chance(1, 4);
        if t.chance(1, 4) {
            ids[0] = t.draw(256) as u8;
        }
    }
    // The lossless process never converts colours
    if proc == Proc::Lossless {
        xf = Xf::None;
    }
    // quantisation tables
    let ntab = if proc == Proc::Lossless { 0 } else { 1 + t.draw(n.min(4) as u32) as usize };
    let tabs: Vec<([u16; 64], bool)> = (0..ntab).map(|_| gen_qt(t)).collect();
    let slots: Vec<usize> = {
        let mut s: Vec<usize> = (0..4).collect();
        if t.chance(1, 3) {
            let k = 1 + t.draw(3) as usize;
            s.rotate_left(k);
        }
        s
    };
    let comps: Vec<Comp> = (0..n)
        .map(|i| {
            let (hh, vv) = lay[i];
            let k = if ntab == 0 { 0 } else { slots[i % ntab] };
            Comp {
                id: ids[i],
                h: hh,
                v: vv,
                tq: if proc == Proc::Lossless { 0 } else { k },
                bw: mx * hh,
                bh: my * vv,
                nw: cdiv(cdiv(w * hh, hmax), 8),
                nh: cdiv(cdiv(h * vv, vmax), 8),
            }
        })
        .collect();
    let qts: Vec<[u16; 64]> = (0..n).map(|i| if ntab == 0 { [1; 64] } else { tabs[i % ntab].0 }).collect();
    let mut im = Image {
        proc,
        precision,
        w,
        h,
        comps,
        hmax,
        vmax,
        mx,
        my,
        coefs: vec![],
        qts,
        samples: vec![],
        scans: vec![],
        segs: vec![],
        xf,
        exif: None,
        xmp: None,
        icc: None,
        mjpeg,
    };
    let mut segs = vec![Seg::new(K::Soi, vec![0xff, 0xd8])];
    if jfif {
        segs.push(Seg::marker(K::App(0), 0xe0, b"JFIF\0\x01\x02\0\0\x01\0\x01\0\0"));
    }
    if mjpeg {
        segs.push(Seg::marker(K::App(0), 0xe0, b"AVI1\0\0\0\0\0\0\0\0\0\0"));
    }
    if let Some(a) = adobe {
        segs.push(Seg::marker(K::App(14), 0xee, &[b'A', b'd', b'o', b'b', b'e', 0, 100, 0, 0, 0, 0, a]));
    }
    if o.meta {
        add_meta(t, &mut im, &mut segs);
    }
    // scan script
    let ri_base = if t.weighted(&o.restart) == 1 {
        let m = if t.chance(1, 2) {
            4
        } else if mx * my > 256 && t.chance(2, 3) {
            // most of the range of a restart interval
            (mx * my * hmax * vmax).min(65535) as u32
        } else {
            30
        };
        1 + t.draw(m) as usize
    } else {
        0
    };
    let hostile = o.hostile > 0 && t.chance(o.hostile, 100);
    im.scans = script(t, &im, ri_base, o, hostile);
    if proc == Proc::Lossless && im.scans.iter().all(|s| s.comps.len() == 1) && t.chance(1, 5) {
        // sampling factors without any effect
        let (h, v) = *t.pick(&[(2, 2), (2, 1), (1, 2), (4, 4), (3, 1)]);
        for c in im.comps.iter_mut() {
            (c.h, c.v) = (h, v);
        }
    }
    // content
    if proc == Proc::Lossless {
        gen_samples(&mut im, t);
    } else {
        gen_blocks(&mut im, t, o.tame);
        if hostile {
            extreme_blocks(&mut im, t);
        }
    }
    emit(t, o, &mut im, segs, &tabs, ntab, &slots, hostile);
    im
}

/// The same image (coefficients or samples, components, colour signalling) coded in another way: process, scan script,
/// restart intervals, Huffman tables, table slots, order and place of segments.
pub fn recode(t: &mut Tape, im: &Image, o: &Opt) -> Image {
    let n = im.comps.len();
    let mut x = im.clone();
    (x.exif, x.xmp, x.icc, x.mjpeg) = (None, None, None, false);
    if im.proc != Proc::Lossless {
        x.proc = *t.pick(&[Proc::Baseline, Proc::Extended, Proc::Progressive, Proc::Progressive]);
    }
    let mut ntab = 0;
    let mut slots: Vec<usize> = (0..4).collect();
    if im.proc != Proc::Lossless {
        // the fewest tables that do when the components take turns
        let least = (1..=n).find(|&k| (0..n).all(|i| im.qts[i] == im.qts[i % k])).unwrap();
        ntab = if t.chance(1, 2) { n } else { least };
        let k = t.draw(4) as usize;
        slots.rotate_left(k);
        for i in 0..n {
            x.comps[i].tq = slots[i % ntab];
        }
    }
    let tabs: Vec<([u16; 64], bool)> = (0..ntab).map(|i| (im.qts[i], im.qts[i].iter().any(|&q| q > 255))).collect();
    let mut segs = vec![Seg::new(K::Soi, vec![0xff, 0xd8])];
    let signal = |s: &&Seg| (s.k == K::App(0) && s.bytes[4..].starts_with(b"JFIF\0")) || s.k == K::App(14);
    segs.extend(im.segs.iter().filter(signal).cloned());
    if o.meta {
        add_meta(t, &mut x, &mut segs);
    }
    let ri = if t.weighted(&o.restart) == 1 { 1 + t.draw(30) as usize } else { 0 };
    x.scans = script(t, &x, ri, o, false);
    if im.proc == Proc::Lossless {
        // the point transform leaves out no more than what is zero
        let pt: Vec<u8> = (0..n).map(|c| im.scans.iter().find(|s| s.comps.contains(&c)).unwrap().al).collect();
        for s in x.scans.iter_mut() {
            s.al = s.al.min(s.comps.iter().map(|&c| pt[c]).min().unwrap());
        }
        // sampling factors larger than one cannot be interleaved
        if x.scans.iter().any(|s| s.comps.len() > 1) {
            for c in x.comps.iter_mut() {
                (c.h, c.v) = (1, 1);
            }
        }
    }
    emit(t, o, &mut x, segs, &tabs, ntab, &slots, false);
    x
}

fn add_meta(t: &mut Tape, im: &mut Image, segs: &mut Vec<Seg>) {
    for _ in 0..t.weighted(&[4, 2, 1, 1]) {
        match t.draw(6) {
            0 => {
                let n = t.draw(40) as usize;
                let b = t.seed().bytes(n);
                segs.push(Seg::marker(K::Com, 0xfe, &b));
            }
            1 => {
                let n = t.draw(60) as usize;
                let d = t.seed().bytes(n);
                let mut b = b"Exif\0\0".to_vec();
                b.extend(&d);
                segs.push(Seg::marker(K::App(1), 0xe1, &b));
                im.exif = Some(d);
            }
            2 => {
                let n = t.draw(60) as usize;
                let d = t.seed().bytes(n);
                let mut b = b"http://ns.adobe.com/xap/1.0/\0".to_vec();
                b.extend(&d);
                segs.push(Seg::marker(K::App(1), 0xe1, &b));
                im.xmp = Some(d);
            }
            3 => {
                if im.icc.is_none() {
                    let n = 1 + t.draw(3) as usize;
                    let mut all = vec![];
                    for i in 0..n {
                        let l = 1 + t.draw(30) as usize;
                        let d = t.seed().bytes(l);
                        let mut b = b"ICC_PROFILE\0".to_vec();
                        b.extend([i as u8 + 1, n as u8]);
                        b.extend(&d);
                        all.extend(&d);
                        segs.push(Seg::marker(K::App(2), 0xe2, &b));
                    }
                    im.icc = Some(all);
                }
            }
            4 => {
                let k = *t.pick(&[3u8, 4, 5, 10, 13, 15]);
                let n = t.draw(50) as usize;
                let b = t.seed().bytes(n);
                segs.push(Seg::marker(K::App(k), 0xe0 + k, &b));
            }
            _ => {
                let mut b = b"Photoshop 3.0\0".to_vec();
                let n = t.draw(50) as usize;
                b.extend(t.seed().bytes(n));
                segs.push(Seg::marker(K::App(13), 0xed, &b));
            }
        }
    }
}

/// Split components into scan groups in frame order.
fn groups(t: &mut Tape, im: &Image) -> Vec<Vec<usize>> {
    let n = im.comps.len();
    let fits = |g: &[usize]| g.len() == 1 || g.iter().map(|&i| im.comps[i].h * im.comps[i].v).sum::<usize>() <= 10;
    let all: Vec<usize> = (0..n).collect();
    if n == 1 {
        return vec![all];
    }
    match t.weighted(&[5, 3, 2]) {
        0 if fits(&all) => vec![all],
        2 => {
            // random grouping, groups in random order
            let mut gs: Vec<Vec<usize>> = vec![];
            for i in 0..n {
                let k = t.draw(gs.len() as u32 + 1) as usize;
                if k < gs.len() {
                    let mut g = gs[k].clone();
                    g.push(i);
                    if fits(&g) {
                        gs[k] = g;
                        continue;
                    }
                }
                gs.push(vec![i]);
            }
            if t.chance(1, 2) {
                gs.reverse();
            }
            gs
        }
        _ => all.into_iter().map(|i| vec![i]).collect(),
    }
}

fn mk_scan(im: &Image, comps: Vec<usize>, ss: u8, se: u8, ah: u8, al: u8, ri: usize) -> Scan {
    let mcus = if im.proc == Proc::Lossless {
        im.w * im.h
    } else if comps.len() == 1 {
        let c = &im.comps[comps[0]];
        c.nw * c.nh
    } else {
        im.mx * im.my
    };
    let ri = if im.proc == Proc::Lossless && ri > 0 { ri * im.w } else { ri };
    let ri = if ri > 65535 { 0 } else { ri };
    let intervals = if ri == 0 { 1 } else { cdiv(mcus, ri) };
    Scan { comps, ss, se, ah, al, ri, mcus, intervals }
}

fn script(t: &mut Tape, im: &Image, ri: usize, o: &Opt, hostile: bool) -> Vec<Scan> {
    let mut out = vec![];
    // restart interval may change between scans
    let ri_of = |t: &mut Tape| if ri > 0 && t.chance(1, 4) { t.draw(9) as usize } else { ri };
    match im.proc {
        Proc::Baseline | Proc::Extended => {
            for g in groups(t, im) {
                let r = ri_of(t);
                out.push(mk_scan(im, g, 0, 63, 0, 0, r));
            }
        }
        Proc::Lossless => {
            let gs = if o.lossless_features { groups(t, im) } else { vec![(0..im.comps.len()).collect()] };
            for g in gs {
                let pred = 1 + t.draw(7) as u8;
                let pt = if o.lossless_features && t.chance(1, 4) { t.draw((im.precision as u32 - 1).min(15)) as u8 } else { 0 };
                let r = if o.lossless_features { ri_of(t) } else { 0 };
                out.push(mk_scan(im, g, pred, 0, 0, pt, r));
            }
        }
        Proc::Progressive => {
            // dependencies: DC first before anything of a component; AC first (band, al) then refinements
            let style = t.weighted(&[2, 3, 3]);
            let most = if o.many_scans && o.deep { *t.pick(&[1u32, 3, 14]) } else { 3 };
            let depth = |t: &mut Tape| match t.weighted(&[12, o.deep as u32 * 2, if hostile { 12 } else { 0 }]) {
                0 => t.draw(most) as u8,
                1 => {
                    let most = if t.chance(1, 3) { 14 } else { 7 };
                    t.draw(most) as u8
                }
                _ => 3 + t.draw(11) as u8,
            };
            let dc_al = if style == 0 { 0 } else { depth(t) };
            let mut pending: Vec<Vec<(Vec<usize>, u8, u8, u8, u8)>> = vec![]; // chains
            for g in groups(t, im) {
                let mut ch = vec![(g.clone(), 0u8, 0u8, 0u8, dc_al)];
                for a in (0..dc_al).rev() {
                    ch.push((g.clone(), 0, 0, a + 1, a));
                }
                pending.push(ch);
            }
            let dc_chains = pending.len();
            for c in 0..im.comps.len() {
                // bands
                let cuts: Vec<u8> = match t.weighted(&[2, 3, 2]) {
                    _ if o.many_scans => (2..65).collect(),
                    0 => vec![64],
                    1 => vec![2 + t.draw(30) as u8, 64],
                    _ => {
                        let a = 2 + t.draw(10) as u8;
                        let b = a + 1 + t.draw(20) as u8;
                        vec![a, b, 64]
                    }
                };
                let mut s = 1u8;
                for e in cuts {
                    if e <= s {
                        continue;
                    }
                    let al = if style == 0 { 0 } else { depth(t) };
                    let mut ch = vec![(vec![c], s, e - 1, 0, al)];
                    for a in (0..al).rev() {
                        ch.push((vec![c], s, e - 1, a + 1, a));
                    }
                    pending.push(ch);
                    s = e;
                }
            }
            // all DC first scans first (a component's DC must come before its AC), then random merge
            let mut pos = vec![0usize; pending.len()];
            for k in 0..dc_chains {
                let (c, s, e, h, l) = pending[k][0].clone();
                pos[k] = 1;
                let r = ri_of(t);
                out.push(mk_scan(im, c, s, e, h, l, r));
            }
            loop {
                let open: Vec<usize> = (0..pending.len()).filter(|&k| pos[k] < pending[k].len()).collect();
                if open.is_empty() {
                    break;
                }
                let k = if style == 2 { *t.pick(&open) } else { open[0] };
                let (c, s, e, h, l) = pending[k][pos[k]].clone();
                pos[k] += 1;
                let r = ri_of(t);
                out.push(mk_scan(im, c, s, e, h, l, r));
            }
        }
    }
    out
}

fn gen_samples(im: &mut Image, t: &mut Tape) {
    let style = t.weighted(&[2, 2, 3, 1]);
    let mut r = t.seed();
    let p = im.precision as u32;
    let max = ((1u32 << p) - 1) as i32;
    let n = im.comps.len();
    im.samples = (0..n)
        .map(|c| {
            let pt = im.scans.iter().find(|s| s.comps.contains(&c)).map_or(0, |s| s.al);
            let base = r.below(max as u32 + 1) as i32;
            (0..im.w * im.h)
                .map(|i| {
                    let (x, y) = ((i % im.w) as i32, (i / im.w) as i32);
                    let v = match style {
                        0 => base,
                        // differences of half the range, the largest category
                        3 => base ^ ((r.below(2) as i32) << (p - 1)),
                        1 => (base + x * (max / 40).max(1) + y * (max / 60).max(1)) & max,
                        _ => r.below(max as u32 + 1) as i32,
                    };
                    ((v >> pt) << pt) as u16
                })
                .collect()
        })
        .collect();
}

pub fn std_tables() -> [[HTab; 2]; 2] {
    let dc0 = HTab::new([0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0], (0..12).collect());
    let dc1 = HTab::new([0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0], (0..12).collect());
    #[rustfmt::skip]
    let ac0v: Vec<u8> = vec![
        0x01, 0x02, 0x03, 0x00, 0x04, 0x11, 0x05, 0x12, 0x21, 0x31, 0x41, 0x06, 0x13, 0x51, 0x61, 0x07, 0x22, 0x71, 0x14,
        0x32, 0x81, 0x91, 0xA1, 0x08, 0x23, 0x42, 0xB1, 0xC1, 0x15, 0x52, 0xD1, 0xF0, 0x24, 0x33, 0x62, 0x72, 0x82];
    #[rustfmt::skip]
    let ac1v: Vec<u8> = vec![
        0x00, 0x01, 0x02, 0x03, 0x11, 0x04, 0x05, 0x21, 0x31, 0x06, 0x12, 0x41, 0x51, 0x07, 0x61, 0x71, 0x13, 0x22, 0x32,
        0x81, 0x08, 0x14, 0x42, 0x91, 0xA1, 0xB1, 0xC1, 0x09, 0x23, 0x33, 0x52, 0xF0, 0x15, 0x62, 0x72, 0xD1, 0x0A, 0x16,
        0x24, 0x34, 0xE1, 0x25, 0xF1];
    // Annex K lists the remaining (run, size) pairs in increasing order
    let complete = |mut v: Vec<u8>| {
        let mut rest: Vec<u8> = (0..16u8).flat_map(|r| (1..=10u8).map(move |s| r << 4 | s)).filter(|x| !v.contains(x)).collect();
        rest.sort();
        v.extend(rest);
        v
    };
    let ac0 = HTab::new([0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 0x7d], complete(ac0v));
    let ac1 = HTab::new([0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 0x77], complete(ac1v));
    [[dc0, dc1], [ac0, ac1]]
}

fn emit(t: &mut Tape, o: &Opt, im: &mut Image, mut segs: Vec<Seg>, tabs: &[([u16; 64], bool)], ntab: usize, slots: &[usize], hostile: bool) {
    // DQT placement: all up front (one or several segments), some after SOF, unused tables, redefinitions
    let mut dqt_late: Vec<Vec<u8>> = vec![];
    // in front of the scans that need them
    let mut dqt_scan: Vec<Vec<Seg>> = vec![vec![]; im.scans.len()];
    let apart = ntab > 0 && matches!(im.proc, Proc::Baseline | Proc::Extended) && im.scans.len() > 1;
    let spread = if apart { t.weighted(&[5, 1, 2]) } else { 0 };
    if spread > 0 {
        let mut now: [Option<[u16; 64]>; 4] = [None; 4];
        for (si, sc) in im.scans.iter().enumerate() {
            if spread == 2 {
                // the scans have the same slots, one after the other
                let mut here: Vec<[u16; 64]> = vec![];
                for &c in &sc.comps {
                    let k = here.iter().position(|q| *q == im.qts[c]).unwrap_or_else(|| {
                        here.push(im.qts[c]);
                        here.len() - 1
                    });
                    im.comps[c].tq = slots[k];
                }
            }
            let mut bodies: Vec<Vec<u8>> = vec![];
            for &c in &sc.comps {
                let k = im.comps[c].tq;
                if now[k] != Some(im.qts[c]) {
                    let wide = im.qts[c].iter().any(|&q| q > 255) || t.chance(1, 10);
                    bodies.push(dqt_body(k, &im.qts[c], wide));
                    now[k] = Some(im.qts[c]);
                }
            }
            // a table for nothing that is still to come
            if t.chance(1, 4) {
                let busy = |k: usize| im.scans[si..].iter().any(|s| s.comps.iter().any(|&c| im.comps[c].tq == k));
                if let Some(k) = (0..4).find(|&k| !busy(k)) {
                    let (q, w) = gen_qt(t);
                    bodies.push(dqt_body(k, &q, w));
                    now[k] = Some(q);
                }
            }
            if t.chance(1, 2) {
                dqt_scan[si].extend(bodies.iter().map(|b| Seg::marker(K::Dqt, 0xdb, b)));
            } else if !bodies.is_empty() {
                dqt_scan[si].push(Seg::marker(K::Dqt, 0xdb, &bodies.concat()));
            }
        }
    } else if ntab > 0 {
        let late = t.chance(1, 5);
        if t.chance(1, 6) {
            // a table that is replaced before use
            let (q, w) = gen_qt(t);
            segs.push(Seg::marker(K::Dqt, 0xdb, &dqt_body(slots[0], &q, w)));
        }
        let one = t.chance(1, 3);
        let mut body = vec![];
        for (i, (q, w)) in tabs.iter().enumerate() {
            let wide = *w || t.chance(1, 10);
            let b = dqt_body(slots[i], q, wide);
            if late && i + 1 == ntab {
                dqt_late.push(b);
            } else if one {
                body.extend(b);
            } else {
                segs.push(Seg::marker(K::Dqt, 0xdb, &b));
            }
        }
        if !body.is_empty() {
            segs.push(Seg::marker(K::Dqt, 0xdb, &body));
        }
    }
    let std = std_tables();
    let mut tab: [[Option<HTab>; 4]; 2] = Default::default();
    if im.mjpeg {
        // some frames bring some of the tables
        let own = if t.chance(1, 2) { t.draw(16) } else { 0 };
        for c in 0..2 {
            for i in 0..2 {
                if own >> (2 * c + i) & 1 == 0 {
                    tab[c][i] = Some(std[c][i].clone());
                }
            }
        }
    }
    // SOF
    let sof = match im.proc {
        Proc::Baseline => 0xc0,
        Proc::Extended => 0xc1,
        Proc::Progressive => 0xc2,
        Proc::Lossless => 0xc3,
    };
    let mut b = vec![im.precision];
    b.extend((im.h as u16).to_be_bytes());
    b.extend((im.w as u16).to_be_bytes());
    b.push(im.comps.len() as u8);
    for c in &im.comps {
        b.extend([c.id, (c.h << 4 | c.v) as u8, c.tq as u8]);
    }
    segs.push(Seg::marker(K::Sof, sof, &b));
    for d in dqt_late {
        segs.push(Seg::marker(K::Dqt, 0xdb, &d));
    }
    let nslots = if im.proc == Proc::Baseline { 2 } else { 4 };
    let hstyle = t.draw(3);
    let reuse = t.chance(1, 2);
    let mut ri_now = 0usize;
    for (si, sc) in im.scans.clone().iter().enumerate() {
        let shift = if nslots == 4 && o.tables { t.draw(4) as usize } else { 0 };
        let dct: Vec<u8> = (0..sc.comps.len()).map(|i| if o.tables { ((i + shift) % nslots) as u8 } else { 0 }).collect();
        let act: Vec<u8> = (0..sc.comps.len()).map(|i| if o.tables { ((i + 2 * shift) % nslots) as u8 } else { 0 }).collect();
        let eob_flush = if im.proc == Proc::Progressive { *t.pick(&[0u32, 0, 7, 2, 1]) } else { 0 };
        let mut r = t.seed();
        let toks = match im.proc {
            Proc::Lossless => toks_lossless(im, sc, &dct),
            _ => toks_dct(im, sc, &dct, &act, eob_flush, &mut r, hostile),
        };
        // symbols needed
        let mut need: [[Vec<u8>; 4]; 2] = Default::default();
        for k in &toks {
            if let Tok::Sym { cls, tbl, sym } = *k {
                let v = &mut need[cls as usize][tbl as usize];
                if !v.contains(&sym) {
                    v.push(sym);
                }
            }
        }
        // every table that the scan header names must be defined, even if unused
        for (&d, &a) in dct.iter().zip(&act) {
            if sc.ss == 0 || im.proc == Proc::Lossless {
                let _ = &need[0][d as usize];
            }
            let _ = a;
        }
        let mut bodies: Vec<Vec<u8>> = vec![];
        for cls in 0..2 {
            for s in 0..4 {
                let used_dc = cls == 0 && dct.contains(&(s as u8)) && (im.proc == Proc::Lossless || sc.ss == 0);
                let used_ac = cls == 1 && act.contains(&(s as u8)) && im.proc != Proc::Lossless && sc.se > 0;
                if !used_dc && !used_ac {
                    continue;
                }
                let nd = &need[cls][s];
                let ok = tab[cls][s].as_ref().map_or(false, |h| nd.iter().all(|&x| h.has(x)));
                if ok && (im.mjpeg || reuse) {
                    continue;
                }
                let std_ok = s < 2 && nd.iter().all(|&x| std[cls][s].has(x));
                let h = if std_ok && hstyle == 0 {
                    std[cls][s].clone()
                } else {
                    let mut sy = nd.clone();
                    // extra symbols that are never used
                    let extra = [0, 0, 3, 12, 60][r.below(5) as usize];
                    for _ in 0..extra {
                        let x = if cls == 0 { r.below(if im.proc == Proc::Lossless { 17 } else { 12 }) as u8 } else { r.below(256) as u8 };
                        if !sy.contains(&x) {
                            sy.push(x);
                        }
                    }
                    if sy.is_empty() {
                        sy.push(0);
                    }
                    sy.sort();
                    let style = r.below(3);
                    HTab::random(&sy, &mut r, style)
                };
                let mut b = vec![(cls as u8) << 4 | s as u8];
                b.extend(h.counts);
                b.extend(&h.values);
                bodies.push(b);
                tab[cls][s] = Some(h);
            }
        }
        let mut hdr: Vec<Seg> = std::mem::take(&mut dqt_scan[si]);
        if !bodies.is_empty() {
            if r.chance(1, 2) {
                hdr.push(Seg::marker(K::Dht, 0xc4, &bodies.concat()));
            } else {
                for b in &bodies {
                    hdr.push(Seg::marker(K::Dht, 0xc4, b));
                }
            }
        }
        if sc.ri != ri_now {
            hdr.push(Seg::marker(K::Dri, 0xdd, &(sc.ri as u16).to_be_bytes()));
            ri_now = sc.ri;
        }
        if hdr.len() > 1 && r.chance(1, 3) {
            hdr.reverse();
        }
        // tables of the first scan may also come before the frame header
        if si == 0 && r.chance(1, 2) {
            let at = segs.iter().position(|s| s.k == K::Sof).unwrap();
            for (i, s) in hdr.into_iter().enumerate() {
                segs.insert(at + i, s);
            }
        } else {
            segs.extend(hdr);
        }
        let mut b = vec![sc.comps.len() as u8];
        for (i, &c) in sc.comps.iter().enumerate() {
            b.extend([im.comps[c].id, dct[i] << 4 | if im.proc == Proc::Lossless { 0 } else { act[i] }]);
        }
        // writers that leave the end of the spectral selection of a sequential scan at 0 are understood
        let lazy = matches!(im.proc, Proc::Baseline | Proc::Extended) && r.chance(1, 20);
        b.extend([sc.ss, if lazy { 0 } else { sc.se }, sc.ah << 4 | sc.al]);
        segs.push(Seg::marker(K::Sos(si), 0xda, &b));
        segs.push(Seg::ecs(si, encode(&toks, &tab)));
    }
    segs.push(Seg::new(K::Eoi, vec![0xff, 0xd9]));
    // application and comment segments may also come between the frame header and the first scan
    let late = t.weighted(&[6, 1, 1, 1, 2]);
    if late == 4 {
        // ... or between scans, and behind the last one
        let (mut mv, mut rest): (Vec<Seg>, Vec<Seg>) = segs.into_iter().partition(|s| matches!(s.k, K::App(1) | K::App(2) | K::App(13) | K::Com));
        match t.draw(3) {
            0 => mv.push(Seg::marker(K::Com, 0xfe, b"late")),
            1 => mv.push(Seg::marker(K::App(7), 0xe7, b"\xff\xd9\xff\xd9\xff\xd9\xff\xd9")),
            _ => {}
        }
        let first = rest.iter().position(|s| matches!(s.k, K::Sos(_))).unwrap();
        let places: Vec<usize> = (first + 1..rest.len()).filter(|&i| !matches!(rest[i].k, K::Ecs(_))).collect();
        let at = if t.chance(1, 2) { rest.len() - 1 } else { *t.pick(&places) };
        rest.splice(at..at, mv);
        segs = rest;
    } else if late > 0 {
        let moved = |s: &Seg| match s.k {
            K::App(0) | K::App(14) => late != 2,
            K::App(_) | K::Com => late != 1,
            _ => false,
        };
        let (mv, mut rest): (Vec<Seg>, Vec<Seg>) = segs.into_iter().partition(moved);
        let lo = rest.iter().position(|s| s.k == K::Sof).unwrap() + 1;
        let hi = rest.iter().position(|s| matches!(s.k, K::Sos(_))).unwrap();
        let at = lo + t.draw((hi - lo + 1) as u32) as usize;
        rest.splice(at..at, mv);
        segs = rest;
    }
    im.segs = segs;
}

/// Blocks of a scan in coding order: (component position in scan, block x, block y), per MCU.
pub fn mcu_blocks(im: &Image, sc: &Scan) -> Vec<Vec<(usize, usize, usize)>> {
    let mut out = Vec::with_capacity(sc.mcus);
    if sc.comps.len() == 1 {
        let c = &im.comps[sc.comps[0]];
        for y in 0..c.nh {
            for x in 0..c.nw {
                out.push(vec![(0, x, y)]);
            }
        }
    } else {
        for my in 0..im.my {
            for mx in 0..im.mx {
                let mut v = vec![];
                for (i, &ci) in sc.comps.iter().enumerate() {
                    let c = &im.comps[ci];
                    for y in 0..c.v {
                        for x in 0..c.h {
                            v.push((i, mx * c.h + x, my * c.v + y));
                        }
                    }
                }
                out.push(v);
            }
        }
    }
    out
}

fn toks_dct(im: &Image, sc: &Scan, dct: &[u8], act: &[u8], eob_flush: u32, r: &mut Rng, hostile: bool) -> Vec<Tok> {
    let mut o: Vec<Tok> = vec![];
    let mut pred = [0i32; 4];
    let mut eobrun = 0u32;
    let mut corr: Vec<u8> = vec![]; // pending correction bits belonging to the EOB run
    let prog = im.proc == Proc::Progressive;
    fn flush(o: &mut Vec<Tok>, tbl: u8, eobrun: &mut u32, corr: &mut Vec<u8>) {
        if *eobrun > 0 {
            let n = 31 - eobrun.leading_zeros();
            o.push(Tok::Sym { cls: 1, tbl, sym: (n as u8) << 4 });
            if n > 0 {
                o.push(Tok::Bits { v: *eobrun - (1 << n), n: n as u8 });
            }
            *eobrun = 0;
        }
        for b in corr.drain(..) {
            o.push(Tok::Bits { v: b as u32, n: 1 });
        }
    }
    for (m, mcu) in mcu_blocks(im, sc).into_iter().enumerate() {
        if sc.ri > 0 && m > 0 && m % sc.ri == 0 {
            flush(&mut o, act[0], &mut eobrun, &mut corr);
            o.push(Tok::Rst);
            pred = [0; 4];
        }
        for (i, bx, by) in mcu {
            let ci = sc.comps[i];
            let blk = &im.coefs[ci][by * im.comps[ci].bw + bx];
            if !prog {
                let d = blk[0] as i32 - pred[i];
                pred[i] = blk[0] as i32;
                let s = category(d);
                o.push(Tok::Sym { cls: 0, tbl: dct[i], sym: s });
                o.push(Tok::Bits { v: value_bits(d, s), n: s });
                let mut run = 0;
                for k in 1..64 {
                    let v = blk[ZZ[k]] as i32;
                    if v == 0 {
                        run += 1;
                        continue;
                    }
                    while run > 15 {
                        o.push(Tok::Sym { cls: 1, tbl: act[i], sym: 0xf0 });
                        run -= 16;
                    }
                    let s = category(v);
                    o.push(Tok::Sym { cls: 1, tbl: act[i], sym: (run as u8) << 4 | s });
                    o.push(Tok::Bits { v: value_bits(v, s), n: s });
                    run = 0;
                }
                if run > 0 {
                    o.push(Tok::Sym { cls: 1, tbl: act[i], sym: 0 });
                }
            } else if sc.ss == 0 && sc.ah == 0 {
                let v = (blk[0] as i32) >> sc.al;
                let d = v - pred[i];
                pred[i] = v;
                let s = category(d);
                o.push(Tok::Sym { cls: 0, tbl: dct[i], sym: s });
                o.push(Tok::Bits { v: value_bits(d, s), n: s });
            } else if sc.ss == 0 {
                o.push(Tok::Bits { v: ((blk[0] as i32) >> sc.al) as u32 & 1, n: 1 });
            } else if sc.ah == 0 {
                let mut run = 0;
                for k in sc.ss..=sc.se {
                    let c = blk[ZZ[k as usize]] as i32;
                    let v = if c < 0 { -((-c) >> sc.al) } else { c >> sc.al };
                    if v == 0 {
                        run += 1;
                        continue;
                    }
                    flush(&mut o, act[i], &mut eobrun, &mut corr);
                    while run > 15 {
                        o.push(Tok::Sym { cls: 1, tbl: act[i], sym: 0xf0 });
                        run -= 16;
                    }
                    let s = category(v);
                    o.push(Tok::Sym { cls: 1, tbl: act[i], sym: (run as u8) << 4 | s });
                    o.push(Tok::Bits { v: value_bits(v, s), n: s });
                    run = 0;
                }
                if run > 0 {
                    eobrun += 1;
                    if eobrun == 0x7fff || (eob_flush > 0 && r.below(eob_flush) == 0) {
                        flush(&mut o, act[i], &mut eobrun, &mut corr);
                    }
                }
            } else {
                // AC refinement (G.1.2.3)
                let absv: Vec<i32> = (0..64).map(|k| (blk[ZZ[k]] as i32).abs() >> sc.al).collect();
                let mut eob = 0; // index of last newly significant coefficient
                for k in sc.ss..=sc.se {
                    if absv[k as usize] == 1 {
                        eob = k;
                    }
                }
                let mut run = 0;
                let mut br: Vec<u8> = vec![];
                for k in sc.ss..=sc.se {
                    let a = absv[k as usize];
                    if a == 0 {
                        run += 1;
                        continue;
                    }
                    while run > 15 && k <= eob {
                        flush(&mut o, act[i], &mut eobrun, &mut corr);
                        o.push(Tok::Sym { cls: 1, tbl: act[i], sym: 0xf0 });
                        run -= 16;
                        for b in br.drain(..) {
                            o.push(Tok::Bits { v: b as u32, n: 1 });
                        }
                    }
                    if a > 1 {
                        br.push(if hostile { r.below(2) as u8 } else { (a & 1) as u8 });
                        continue;
                    }
                    flush(&mut o, act[i], &mut eobrun, &mut corr);
                    o.push(Tok::Sym { cls: 1, tbl: act[i], sym: (run as u8) << 4 | 1 });
                    o.push(Tok::Bits { v: (blk[ZZ[k as usize]] >= 0) as u32, n: 1 });
                    for b in br.drain(..) {
                        o.push(Tok::Bits { v: b as u32, n: 1 });
                    }
                    run = 0;
                }
                if run > 0 || !br.is_empty() {
                    eobrun += 1;
                    corr.append(&mut br);
                    if eobrun == 0x7fff || corr.len() > 900 || (eob_flush > 0 && r.below(eob_flush) == 0) {
                        flush(&mut o, act[i], &mut eobrun, &mut corr);
                    }
                }
            }
        }
    }
    flush(&mut o, act[0], &mut eobrun, &mut corr);
    o
}

fn toks_lossless(im: &Image, sc: &Scan, dct: &[u8]) -> Vec<Tok> {
    let mut o = vec![];
    let (w, pt) = (im.w, sc.al);
    for m in 0..sc.mcus {
        if sc.ri > 0 && m > 0 && m % sc.ri == 0 {
            o.push(Tok::Rst);
        }
        let (x, y) = (m % w, m / w);
        // first line of the current restart interval
        let y0 = if sc.ri > 0 { (m / sc.ri * sc.ri) / w } else { 0 };
        for (i, &ci) in sc.comps.iter().enumerate() {
            let s = |x: usize, y: usize| (im.samples[ci][y * w + x] >> pt) as i32;
            let p = if y == y0 {
                if x == 0 {
                    if im.precision > pt + 1 {
                        1 << (im.precision - pt - 1)
                    } else {
                        1 // 2^(P-Pt-1) with P = Pt+1
                    }
                } else {
                    s(x - 1, y)
                }
            } else if x == 0 {
                s(x, y - 1)
            } else {
                let (ra, rb, rc) = (s(x - 1, y), s(x, y - 1), s(x - 1, y - 1));
                match sc.ss {
                    1 => ra,
                    2 => rb,
                    3 => rc,
                    4 => ra + rb - rc,
                    5 => ra + ((rb - rc) >> 1),
                    6 => rb + ((ra - rc) >> 1),
                    _ => (ra + rb) >> 1,
                }
            };
            let mut d = (s(x, y) - p) & 0xffff;
            if d > 32768 {
                d -= 65536;
            }
            if d == 32768 {
                o.push(Tok::Sym { cls: 0, tbl: dct[i], sym: 16 });
            } else {
                let c = category(d);
                o.push(Tok::Sym { cls: 0, tbl: dct[i], sym: c });
                o.push(Tok::Bits { v: value_bits(d, c), n: c });
            }
        }
    }
    o
}
