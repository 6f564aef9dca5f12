//! Shared parts of the property scenarios.
use crate::exec::{cnt, C};
use crate::jpeg::{Image, Proc, Seg, Xf, K};
use crate::sched::{self, Role};
use crate::subject::*;
use crate::tape::Tape;
use crate::tr;
pub use crate::exec::{add, discard, nontrivial, verdict, violation, Ctx};
pub use crate::jpeg::{assemble, generate, generate_sized, Opt};
pub use crate::reader::{Fault, Plan};
pub use std::sync::Arc;

pub const WELL_FORMED_BUDGET: u64 = 600_000_000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Caller {
    Main,
    Client,
    InPool,
    /// a task of another pool with this many threads
    OwnPool(usize),
}
pub fn draw_caller(t: &mut Tape) -> Caller {
    match t.weighted(&[8, 2, 5, 2]) {
        0 => Caller::Main,
        1 => Caller::Client,
        2 => Caller::InPool,
        _ => Caller::OwnPool([1, 2, 3, 7][t.weighted(&[2, 3, 2, 1])]),
    }
}
/// Draw the machine: number of pool threads (1..=5).
pub fn draw_pool(t: &mut Tape) -> usize {
    [2, 1, 3, 4, 5][t.weighted(&[3, 3, 2, 2, 1])]
}

/// Start the simulation and the thread pool of this run.
pub fn start(c: &mut Ctx, pool: usize, budget: u64) {
    c.start(budget);
    let _ = pool;
    #[cfg(feature = "rayon")]
    {
        sched::quiet(true);
        sched::with_role(Role::Pool, || {
            rayon::ThreadPoolBuilder::new().num_threads(pool).build_global().expect("pool");
        });
        sched::drain();
        sched::quiet(false);
        cnt(C::ProbePoolUsed);
    }
}

/// Run f on the chosen kind of thread and wait for it.
pub fn on<T: Send>(k: Caller, f: impl FnOnce() -> T + Send) -> T {
    match k {
        Caller::Main => f(),
        #[cfg(feature = "rayon")]
        Caller::InPool => {
            cnt(C::ProbeInsidePool);
            let mut r = None;
            rayon::scope(|_| r = Some(f()));
            r.unwrap()
        }
        #[cfg(feature = "rayon")]
        Caller::OwnPool(n) => {
            cnt(C::ProbeOwnPool);
            let pool = sched::with_role(Role::Pool, || rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool"));
            pool.install(f)
        }
        _ => std::thread::scope(|s| {
            let h = sched::with_role(Role::Client, || s.spawn(f));
            h.join().unwrap_or_else(|_| verdict("harness", "client thread panicked"))
        }),
    }
}

/// For some histories: a thread of its own for every call.
pub fn draw_roam(t: &mut Tape, n: usize) -> Vec<Caller> {
    if t.chance(1, 4) {
        (0..n).map(|_| [Caller::Client, Caller::Main, Caller::InPool][t.weighted(&[3, 2, 2])]).collect()
    } else {
        vec![]
    }
}
/// Applies call i of a history on the thread drawn for it.
pub fn apply_roam(roam: &[Caller], i: usize, s: &mut Subj, op: &Op) -> Val {
    match roam.get(i) {
        Some(&k) => {
            cnt(C::ProbeRoam);
            on(k, || apply(s, op))
        }
        None => apply(s, op),
    }
}

pub fn note_image(im: &Image) {
    cnt(match im.proc {
        Proc::Baseline => C::ImgBaseline,
        Proc::Extended => C::ImgExtended,
        Proc::Progressive => C::ImgProgressive,
        Proc::Lossless => C::ImgLossless,
    });
    if im.scans.iter().any(|s| s.intervals > 1) {
        cnt(C::ImgRestart);
    }
    if im.comps.len() > 1 && im.scans.iter().any(|s| s.comps.len() == 1) {
        cnt(C::ImgNonInterleaved);
    }
    if im.comps.iter().any(|c| c.h != im.hmax || c.v != im.vmax) {
        cnt(C::ImgSubsampled);
    }
    if im.w > 128 {
        cnt(C::ImgParallel);
    }
    if im.mjpeg {
        cnt(C::ImgMjpeg);
    }
    if im.w > 65000 || im.h > 65000 {
        cnt(C::ImgTall);
    }
}

pub fn describe(im: &Image) -> String {
    let cs: Vec<String> = im.comps.iter().map(|c| format!("{}:{}x{}", c.id, c.h, c.v)).collect();
    let sc: Vec<String> = im
        .scans
        .iter()
        .map(|s| format!("{:?}[{}..{} {}/{}]ri{}", s.comps, s.ss, s.se, s.ah, s.al, s.ri))
        .collect();
    format!("{:?} p{} {}x{} comps {} {:?} scans {}", im.proc, im.precision, im.w, im.h, cs.join(","), im.xf, sc.join(" "))
}

pub fn hexs(b: &[u8]) -> String {
    let n = b.len().min(600);
    let mut s: String = b[..n].iter().map(|x| format!("{:02x}", x)).collect();
    if n < b.len() {
        s.push_str("...");
    }
    s
}
pub fn tr_bytes(what: &str, b: &[u8]) {
    if b.len() <= 3000 {
        tr!("{} ({} bytes): {}", what, b.len(), b.iter().map(|x| format!("{:02x}", x)).collect::<String>());
    } else {
        tr!("{} ({} bytes): {}", what, b.len(), hexs(b));
    }
}

pub fn bpp_of(fmt: &str) -> usize {
    match fmt {
        "L8" => 1,
        "L16" => 2,
        "RGB24" => 3,
        _ => 4,
    }
}

/// Is this image one whose samples need two bytes although the pixel formats of the crate
/// have only one byte per sample?
pub fn deep_multi(im: &Image) -> bool {
    im.proc == Proc::Lossless && im.precision > 8 && im.comps.len() > 1
}

/// Class of a buffer whose size does not match the image info. One class is a recorded finding:
/// a lossless frame of 3 or 4 components and more than 8 bits per sample with two bytes per
/// sample. In damaged data such a frame header must at least be present.
pub fn size_class(b: &super::damage::Bytes, len: usize, want: usize, fmt: &str, proc: &str) -> &'static str {
    let declared = if b.damaged { b.data.windows(5).any(|w| w[0] == 0xFF && w[1] == 0xC3 && w[4] > 8) } else { deep_multi(&b.im) };
    if declared && proc == "lossless" && (fmt == "RGB24" || fmt == "CMYK32") && len == 2 * want {
        "size-lossless-multi-deep"
    } else {
        "size"
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    ReadInfo,
    Scale(u16, u16),
    Decode,
    SetXf(ColorTransform),
    SetMax(usize),
    Info,
    Meta,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit(Res<()>),
    Size(Res<(u16, u16)>),
    Px(Res<Vec<u8>>),
    None,
}
impl Val {
    pub fn fail(&self) -> Option<&Fail> {
        match self {
            Val::Unit(Err(f)) | Val::Size(Err(f)) | Val::Px(Err(f)) => Some(f),
            _ => None,
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Val::Px(r) => brief(r),
            Val::None => "-".into(),
            v => match v.fail() {
                Some(f) => f.short(),
                None => format!("{:?}", v),
            },
        }
    }
}
/// What one call returned and what could be seen from outside afterwards.
#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub val: Val,
    pub info: Option<(u16, u16, &'static str, &'static str)>,
    pub exif: Option<Vec<u8>>,
    pub xmp: Option<Vec<u8>>,
    pub icc: Option<Vec<u8>>,
    pub pos: usize,
}
impl Step {
    pub fn diff(&self, o: &Step) -> Option<String> {
        if self == o {
            return None;
        }
        let ob = |s: &Step| Obs {
            pixels: match &s.val {
                Val::Px(p) => p.clone(),
                _ => Ok(vec![]),
            },
            info: s.info,
            exif: s.exif.clone(),
            xmp: s.xmp.clone(),
            icc: s.icc.clone(),
            pos: s.pos,
        };
        if !matches!(self.val, Val::Px(_)) && self.val != o.val {
            return Some(format!("outcome differs: {} vs {}", self.val.brief(), o.val.brief()));
        }
        diff(&ob(self), &ob(o)).or(Some("?".into()))
    }
}

pub fn apply(s: &mut Subj, op: &Op) -> Val {
    match op {
        Op::ReadInfo => Val::Unit(s.read_info()),
        Op::Scale(w, h) => Val::Size(s.scale(*w, *h)),
        Op::Decode => Val::Px(s.decode()),
        Op::SetXf(x) => {
            s.set_color_transform(*x);
            Val::None
        }
        Op::SetMax(n) => {
            s.set_max(*n);
            Val::None
        }
        Op::Info => {
            let _ = s.info();
            Val::None
        }
        Op::Meta => {
            let _ = s.exif();
            let _ = s.xmp();
            let _ = s.icc();
            Val::None
        }
    }
}
pub fn look(s: &mut Subj, val: Val) -> Step {
    let o = observe(s, Ok(vec![])).unwrap_or_else(|f| {
        violation("panic-accessor", &format!("an accessor panicked: {:?}", f));
        discard()
    });
    Step { val, info: o.info, exif: o.exif, xmp: o.xmp, icc: o.icc, pos: o.pos }
}
pub fn run_ops(s: &mut Subj, ops: &[Op]) -> Vec<Step> {
    ops.iter()
        .map(|op| {
            let v = apply(s, op);
            look(s, v)
        })
        .collect()
}

pub fn draw_request(t: &mut Tape, w: usize, h: usize) -> (u16, u16) {
    let one = |t: &mut Tape, n: usize| -> u16 {
        let v = match t.weighted(&[2, 1, 1, 1, 1, 3, 1, 1]) {
            0 => 1,
            1 => n,
            2 => n.div_ceil(2) + t.draw(2) as usize,
            3 => n.div_ceil(4) + t.draw(2) as usize,
            4 => n.div_ceil(8) + t.draw(2) as usize,
            5 => 1 + t.draw(n.min(65535) as u32) as usize,
            6 => 65535,
            _ => 0,
        };
        v.min(65535) as u16
    };
    (one(t, w), one(t, h))
}

/// A history of calls that ends in decode.
pub fn draw_ops(t: &mut Tape, w: usize, h: usize, extra: bool) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..t.weighted(&[3, 3, 2, 1]) {
        match t.weighted(&[3, 3, if extra { 1 } else { 0 }]) {
            0 => v.push(Op::ReadInfo),
            1 => {
                let (a, b) = draw_request(t, w, h);
                v.push(Op::Scale(a, b));
            }
            _ => v.push(Op::SetXf(*t.pick(&ALL_XF))),
        }
    }
    v.push(Op::Decode);
    v
}
pub const ALL_XF: [ColorTransform; 9] = [
    ColorTransform::None,
    ColorTransform::Unknown,
    ColorTransform::Grayscale,
    ColorTransform::RGB,
    ColorTransform::YCbCr,
    ColorTransform::CMYK,
    ColorTransform::YCCK,
    ColorTransform::JcsBgYcc,
    ColorTransform::JcsBgRgb,
];

/// A colour override that is valid for this number of components, with what it means.
pub fn draw_override(t: &mut Tape, n: usize) -> (ColorTransform, Xf) {
    match n {
        1 => (*t.pick(&[ColorTransform::Grayscale, ColorTransform::None]), Xf::Gray),
        3 => *t.pick(&[(ColorTransform::RGB, Xf::Rgb), (ColorTransform::YCbCr, Xf::YCbCr), (ColorTransform::None, Xf::None)]),
        _ => *t.pick(&[(ColorTransform::CMYK, Xf::Cmyk), (ColorTransform::YCCK, Xf::Ycck), (ColorTransform::None, Xf::None)]),
    }
}

/// The body of an application segment that begins like a known one and is something else.
pub fn near_miss(t: &mut Tape) -> (u8, Vec<u8>) {
    let known: &[(u8, &[u8])] = &[
        (0, b"JFIF\0"),
        (14, b"Adobe\0"),
        (1, b"Exif\0\0"),
        (1, b"http://ns.adobe.com/xap/1.0/\0"),
        (2, b"ICC_PROFILE\0"),
        (0, b"AVI1"),
    ];
    let (k, sig) = *t.pick(known);
    // the first byte that differs
    let at = if t.chance(2, 3) { sig.len() - 1 - t.draw(3) as usize } else { t.draw(sig.len() as u32) as usize };
    let mut b = sig.to_vec();
    b[at] = match t.draw(4) {
        0 => b[at] ^ 0x20,
        1 => b'_' ^ (b[at] == b'_') as u8,
        2 => b[at].wrapping_add(1),
        _ => b[at] ^ (1 + t.draw(255) as u8),
    };
    if k == 0 && sig.len() == 4 {
        b.push(0);
    }
    let n = if t.chance(1, 4) { t.draw(200) } else { t.draw(12) } as usize;
    let small = t.chance(1, 2);
    let mut r = t.seed();
    let tail: Vec<u8> = r.bytes(n).into_iter().map(|x| if small { x % 4 } else { x }).collect();
    b.extend(tail);
    (k, b)
}

pub fn find(segs: &[Seg], f: impl Fn(&K) -> bool) -> Vec<usize> {
    (0..segs.len()).filter(|&i| f(&segs[i].k)).collect()
}
/// Byte offset at which each segment starts, plus the end.
pub fn offsets(segs: &[Seg]) -> Vec<usize> {
    let mut o = vec![0];
    for s in segs {
        o.push(o.last().unwrap() + s.bytes.len());
    }
    o
}
/// A byte position, biased towards structure.
pub fn draw_pos(t: &mut Tape, segs: &[Seg], total: usize) -> usize {
    let offs = offsets(segs);
    let p = match t.weighted(&[3, 3, 2]) {
        0 => t.draw(total as u32 + 1) as usize,
        1 => {
            let k = t.draw(offs.len() as u32) as usize;
            (offs[k] + t.draw(6) as usize).saturating_sub(t.draw(3) as usize)
        }
        _ => total.saturating_sub(t.draw(12) as usize),
    };
    p.min(total)
}
pub fn check_no_panic(v: &Val, what: &str) {
    if let Some(Fail::Panic(m)) = v.fail() {
        violation("panic", &format!("{} panicked: {}", what, m));
    }
}
pub fn check_worker_panics() {
    let w = worker_panics();
    if !w.is_empty() {
        violation("worker-panic", &format!("a worker thread panicked: {}", w.join("; ")));
    }
}
