//! A failing source is reported, exactly and at once.
use super::common::*;
use super::damage::any_bytes;
use crate::exec::{cnt, C};
use crate::jpeg::K;
use crate::sched;
use crate::subject::*;
use crate::tr;
use std::io::ErrorKind;

pub const KINDS: [ErrorKind; 14] = [
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
];

pub fn draw_err(t: &mut crate::tape::Tape) -> Fault {
    let raw = if t.chance(1, 5) { Some(*t.pick(&[libc::EIO, libc::EAGAIN, libc::ENOSPC, libc::ESTALE, libc::ETIMEDOUT, libc::EBADF, libc::ENOMEM])) } else { None };
    Fault::Err { kind: *t.pick(&KINDS), id: t.draw(1 << 30), persistent: t.chance(1, 2), raw }
}

pub fn run(c: &mut Ctx) {
    let t = &mut c.t;
    let o = Opt { max_w: 40, max_h: 40, wide: 20, ..Opt::any() };
    let mut b = any_bytes(t, &o, 20, 150_000);
    if !b.damaged && t.chance(1, 5) {
        // a stray final restart marker
        let v = find(&b.segs, |k| matches!(k, K::Ecs(_)));
        let i = *t.pick(&v);
        let n = t.draw(8) as u8;
        b.segs[i].bytes.extend([0xff, 0xd0 + n]);
        b.data = assemble(&b.segs);
        cnt(C::FaultNoiseRst);
        tr!("stray RST{} after segment {}", n, i);
    }
    let ops = draw_ops(t, b.im.w, b.im.h, false);
    let off = draw_pos(t, &b.segs, b.data.len());
    let fault = match t.weighted(&[4, 2, 1]) {
        0 => draw_err(t),
        1 => Fault::Eof,
        _ => Fault::EofOnce,
    };
    let plan = if t.chance(1, 2) { Plan::draw_benign(t) } else { Plan::plain() };
    let caller = draw_caller(t);
    let pool = draw_pool(t);
    tr!("calls {:?}; at byte {}: {:?}; {:?}", ops, off, fault, plan.chunk);
    tr_bytes("data", &b.data);
    start(c, pool, WELL_FORMED_BUDGET);
    let data = Arc::new(b.data.clone());
    sched::quiet(true);
    let base = {
        let mut s = Subj::new(&data, Plan::plain());
        run_ops(&mut s, &ops)
    };
    sched::quiet(false);
    let plan = plan.with(off, fault.clone());
    on(caller, || {
        let mut s = Subj::new(&data, plan.clone());
        for (i, op) in ops.iter().enumerate() {
            let fired_before = s.src.st().fired.len();
            let v = apply(&mut s, op);
            let needed = base[i].pos;
            let fired = s.src.st().fired.len() > fired_before;
            let st = look(&mut s, v);
            tr!("{:?} -> {} (fault fired: {}, undisturbed: {} needing {} bytes)", op, st.val.brief(), fired, base[i].val.brief(), needed);
            if off < needed || (fired && matches!(base[i].val.fail(), Some(Fail::Io { .. }))) {
                // the bytes needed for this call do not all arrive
                let seg = offsets(&b.segs).iter().rposition(|&x| x <= off).unwrap_or(0);
                cnt(if b.segs.get(seg).map_or(false, |s| matches!(s.k, K::Ecs(_))) { C::ProbeFaultInEcs } else { C::ProbeFaultInHdr });
                nontrivial();
                if !fired {
                    violation("fault-not-met", &format!("{:?} returned {} although the source cannot deliver byte {} and an undisturbed call takes {} bytes", op, st.val.brief(), off, needed));
                    return;
                }
                let ok = match (&fault, st.val.fail()) {
                    (Fault::Err { raw: Some(r), .. }, Some(Fail::Io { raw, .. })) => *raw == Some(*r),
                    (Fault::Err { kind, id, .. }, Some(Fail::Io { kind: k, id: i, .. })) => k == kind && *i == Some(*id),
                    (Fault::Eof | Fault::EofOnce, Some(Fail::Io { kind, .. })) => *kind == ErrorKind::UnexpectedEof,
                    _ => false,
                };
                if !ok {
                    violation("wrong-report", &format!("source failed at byte {} with {:?}, but {:?} returned {}", off, fault, op, st.val.brief()));
                }
                if let Some(Fail::Io { chained: false, msg, .. }) = st.val.fail() {
                    violation("cause", &format!("the error of {:?} is neither the cause of the crate's error nor in its text: {}", op, msg));
                }
                let extra = s.src.st().reads_since_fail;
                if extra > 0 {
                    violation("read-after-failure", &format!("{:?} made {} more reads after the source had failed at byte {} ({:?})", op, extra, off, fault));
                }
                cnt(C::ProbeSoleErr);
                return;
            }
            if let Some(d) = base[i].diff(&st) {
                violation("fault-beyond-need", &format!("a source failure at byte {} changes {:?}, which needs only {} bytes: {}", off, op, needed, d));
            }
        }
    });
    check_worker_panics();
}
