//! Calls into the system under test, with panics caught and outcomes turned into plain values.
use crate::exec::{add, cnt, event, event_bytes, shm, C};
use crate::mem;
use crate::reader::{InjectedPanic, Plan, Shared, SimErr, SimReader};
use crate::sched;
use std::io::ErrorKind;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::*;
use std::sync::{Arc, Mutex};
pub use sut::{CodingProcess, ColorTransform, ImageInfo, PixelFormat};

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Format(String),
    Unsupported(String),
    /// `chained`: also as the cause of the crate's error, and in its text
    Io { kind: ErrorKind, id: Option<u32>, raw: Option<i32>, msg: String, chained: bool },
    Internal(String),
    Panic(String),
    /// the panic injected by the source came out of the call
    Injected,
}
impl Fail {
    pub fn is_panic(&self) -> bool {
        matches!(self, Fail::Panic(_))
    }
    pub fn short(&self) -> String {
        match self {
            Fail::Io { kind, id, raw, .. } => format!("Io({:?}, id {:?}, os {:?})", kind, id, raw),
            x => format!("{:?}", x),
        }
    }
}
pub type Res<T> = Result<T, Fail>;

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
/// Panics on threads other than the ones that called the decoder.
static WORKER_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        mem::harness(|| {
            if info.payload().downcast_ref::<InjectedPanic>().is_some() {
                return;
            }
            let txt = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info.location().map_or("?".to_string(), |l| {
                let f = l.file();
                let f = f.rsplit_once("/src/").map_or(f, |x| x.1);
                format!("{}:{}", f, l.line())
            });
            let m = format!("{} at {}", txt, loc);
            if sched::active() && matches!(sched::role(), sched::Role::Sut | sched::Role::Pool) {
                if let Ok(mut w) = WORKER_PANICS.try_lock() {
                    w.push(m.clone());
                }
            }
            if let Ok(mut l) = LAST_PANIC.try_lock() {
                *l = m;
            }
        })
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.try_lock().map_or(String::new(), |s| s.clone())
}
pub fn worker_panics() -> Vec<String> {
    WORKER_PANICS.lock().unwrap().clone()
}
pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

fn convert(e: sut::Error) -> Fail {
    let text = e.to_string();
    let cause = std::error::Error::source(&e).and_then(|x| x.downcast_ref::<std::io::Error>()).map(|x| (x.kind(), x.to_string()));
    match e {
        sut::Error::Format(s) => {
            cnt(C::ResFormat);
            Fail::Format(s)
        }
        sut::Error::Unsupported(u) => {
            cnt(C::ResUnsupported);
            Fail::Unsupported(format!("{:?}", u))
        }
        sut::Error::Io(e) => {
            cnt(C::ResIo);
            let id = e.get_ref().and_then(|x| x.downcast_ref::<SimErr>()).map(|x| x.0);
            let msg = e.to_string();
            let chained = text.contains(&msg) && cause.is_some_and(|c| c.0 == e.kind() && c.1 == msg);
            Fail::Io { kind: e.kind(), id, raw: e.raw_os_error(), msg, chained }
        }
        sut::Error::Internal(e) => Fail::Internal(e.to_string()),
    }
}

/// Run a piece of the system under test.
pub fn sut_call<T>(f: impl FnOnce() -> T) -> Res<T> {
    add(C::SutCalls, 1);
    shm().in_sut.fetch_add(1, SeqCst);
    mem::enter_sut();
    let r = catch_unwind(AssertUnwindSafe(f));
    mem::leave_sut();
    shm().in_sut.fetch_sub(1, SeqCst);
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.downcast_ref::<InjectedPanic>().is_some() {
                Err(Fail::Injected)
            } else {
                cnt(C::ResPanic);
                let m = last_panic();
                Err(Fail::Panic(if m.is_empty() { panic_text(&p) } else { m }))
            }
        }
    }
}
fn flat<T>(r: Res<Result<T, sut::Error>>) -> Res<T> {
    let r = match r {
        Ok(Ok(v)) => {
            cnt(C::ResOk);
            Ok(v)
        }
        Ok(Err(e)) => Err(convert(e)),
        Err(f) => Err(f),
    };
    event(match &r {
        Ok(_) => 1,
        Err(Fail::Format(_)) => 2,
        Err(Fail::Unsupported(_)) => 3,
        Err(Fail::Io { .. }) => 4,
        Err(_) => 5,
    });
    r
}

pub struct Subj {
    dec: Option<sut::Dec>,
    pub src: Arc<Shared>,
}

impl Subj {
    pub fn new(data: &Arc<Vec<u8>>, plan: Plan) -> Subj {
        Subj::from_source(crate::reader::source(data.clone(), plan))
    }
    /// A decoder on an existing source (which may have delivered bytes to an earlier one).
    pub fn from_source(src: Arc<Shared>) -> Subj {
        let r: Box<dyn std::io::Read + Send> = Box::new(SimReader(src.clone()));
        let d = sut_call(move || sut::Dec::new(r)).ok();
        Subj { dec: d, src }
    }
    fn d(&mut self) -> &mut sut::Dec {
        self.dec.as_mut().expect("decoder")
    }
    pub fn read_info(&mut self) -> Res<()> {
        cnt(C::OpReadInfo);
        let d = self.d();
        flat(sut_call(|| d.read_info()))
    }
    pub fn scale(&mut self, w: u16, h: u16) -> Res<(u16, u16)> {
        cnt(C::OpScale);
        let d = self.d();
        flat(sut_call(|| d.scale(w, h)))
    }
    pub fn decode(&mut self) -> Res<Vec<u8>> {
        cnt(C::OpDecode);
        let d = self.d();
        let r = flat(sut_call(|| d.decode()));
        if let Ok(v) = &r {
            event_bytes(v);
        }
        r
    }
    pub fn info(&mut self) -> Res<Option<ImageInfo>> {
        cnt(C::OpAccessor);
        let d = self.d();
        sut_call(|| d.info())
    }
    pub fn exif(&mut self) -> Res<Option<Vec<u8>>> {
        cnt(C::OpAccessor);
        let d = self.d();
        Ok(sut_call(|| d.exif())?.map(|x| x.to_vec()))
    }
    pub fn xmp(&mut self) -> Res<Option<Vec<u8>>> {
        cnt(C::OpAccessor);
        let d = self.d();
        Ok(sut_call(|| d.xmp())?.map(|x| x.to_vec()))
    }
    pub fn icc(&mut self) -> Res<Option<Vec<u8>>> {
        cnt(C::OpAccessor);
        let d = self.d();
        sut_call(|| d.icc())
    }
    pub fn set_color_transform(&mut self, t: ColorTransform) {
        cnt(C::OpSetter);
        let d = self.d();
        let _ = sut_call(|| d.set_color_transform(t));
    }
    pub fn set_max(&mut self, n: usize) {
        cnt(C::OpSetter);
        let d = self.d();
        let _ = sut_call(|| d.set_max(n));
    }
    pub fn drop_decoder(&mut self) -> Res<()> {
        match self.dec.take() {
            Some(d) => sut_call(move || d.drop_dec()),
            None => Ok(()),
        }
    }
    pub fn pos(&self) -> usize {
        self.src.st().pos
    }
}
impl Drop for Subj {
    fn drop(&mut self) {
        let _ = self.drop_decoder();
    }
}

/// Everything observable about one decode.
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub pixels: Res<Vec<u8>>,
    pub info: Option<(u16, u16, &'static str, &'static str)>,
    pub exif: Option<Vec<u8>>,
    pub xmp: Option<Vec<u8>>,
    pub icc: Option<Vec<u8>>,
    pub pos: usize,
}
pub fn info_tuple(i: &ImageInfo) -> (u16, u16, &'static str, &'static str) {
    let bytes = match i.pixel_format {
        PixelFormat::L8 => 1,
        PixelFormat::L16 => 2,
        PixelFormat::RGB24 => 3,
        PixelFormat::CMYK32 => 4,
    };
    if i.pixel_format.pixel_bytes() != bytes {
        crate::exec::violation("pixel-bytes", &format!("{:?}.pixel_bytes() is {}", i.pixel_format, i.pixel_format.pixel_bytes()));
    }
    (
        i.width,
        i.height,
        match i.pixel_format {
            PixelFormat::L8 => "L8",
            PixelFormat::L16 => "L16",
            PixelFormat::RGB24 => "RGB24",
            PixelFormat::CMYK32 => "CMYK32",
        },
        match i.coding_process {
            CodingProcess::DctSequential => "sequential",
            CodingProcess::DctProgressive => "progressive",
            CodingProcess::Lossless => "lossless",
        },
    )
}
pub fn observe(s: &mut Subj, pixels: Res<Vec<u8>>) -> Res<Obs> {
    let info = s.info()?.map(|i| info_tuple(&i));
    Ok(Obs { pixels, info, exif: s.exif()?, xmp: s.xmp()?, icc: s.icc()?, pos: s.pos() })
}
pub fn brief(r: &Res<Vec<u8>>) -> String {
    match r {
        Ok(v) => format!("Ok({} bytes, hash {:08x})", v.len(), crate::exec::hash_bytes(v) as u32),
        Err(f) => f.short(),
    }
}
/// Describe the first difference of two observations.
pub fn diff(a: &Obs, b: &Obs) -> Option<String> {
    if a == b {
        return None;
    }
    Some(match (&a.pixels, &b.pixels) {
        (Ok(x), Ok(y)) if x != y => {
            let k = x.iter().zip(y).position(|(p, q)| p != q);
            format!("pixels differ: {} vs {} bytes, first at {:?} ({:?} vs {:?})", x.len(), y.len(), k, k.map(|k| x[k]), k.map(|k| y[k]))
        }
        (x, y) if x != y => format!("outcome differs: {} vs {}", brief(x), brief(y)),
        _ if a.info != b.info => format!("info differs: {:?} vs {:?}", a.info, b.info),
        _ if a.exif != b.exif => "exif differs".into(),
        _ if a.xmp != b.xmp => "xmp differs".into(),
        _ if a.icc != b.icc => format!("icc differs: {:?} vs {:?} bytes", a.icc.as_ref().map(|v| v.len()), b.icc.as_ref().map(|v| v.len())),
        _ => format!("bytes taken from the source differ: {} vs {}", a.pos, b.pos),
    })
}
