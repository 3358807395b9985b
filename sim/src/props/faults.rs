//! C03, C05: failing sinks and sources.

use super::*;
use crate::alloc;
use crate::ctx::{count, describe, event, nontrivial, C};
use crate::io::{consume, Delivery, FailAt, Fault, SimWriter, Source, SourceKind, What, FAULTS};
use crate::model::hex;
use crate::{ensure, fail};
use compact_thrift_runtime::ThriftError;
use std::io::{ErrorKind, Write};

fn kind_of(e: &ThriftError) -> Option<ErrorKind> {
    match e {
        ThriftError::IO(k) => Some(*k),
        _ => None,
    }
}

fn draw_fault(t: &mut Tape) -> Fault {
    if t.chance(1, 3) {
        Fault::Zero
    } else {
        *t.pick(FAULTS)
    }
}

pub fn c03(t: &mut Tape) -> Check {
    let (ops, v) = case_huge(t, 1000);
    let mut healthy = SimWriter::new(Delivery::smooth());
    if let Err(e) = (ops.write)(&v, &mut healthy) {
        fail!("healthy-write-failed", "{}: {e:?}", ops.name);
    }
    let want = healthy.accepted;
    let len = want.len();
    let splitting = Delivery::draw(t);
    describe(|| format!("{} {} ({len} bytes) to failing sinks, delivery {:?} eintr {}%", ops.name, v.brief(), splitting.chunk, splitting.eintr));
    // splitting and interrupting alone never fails
    let mut w = SimWriter::new(splitting.clone());
    match (ops.write)(&v, &mut w) {
        Ok(()) => ensure!(w.accepted == want, "split-write-differs", "{}: accepted {} instead of {}", ops.name, hex(&w.accepted), hex(&want)),
        Err(e) => fail!("split-write-failed", "{}: {e:?} although the sink only splits and interrupts", ops.name),
    }
    for at in cut_points(t, len, 40, 12) {
        let fault = draw_fault(t);
        let sticky = t.chance(1, 2);
        let style = t.weighted(&[6, 1, 1, 1]);
        let delivery = if t.chance(1, 2) { splitting.clone() } else { Delivery::smooth() };
        nontrivial();
        match style {
            0 => {
                let mut w = SimWriter::new(delivery).failing(Some(FailAt { at, fault, sticky }));
                let r = (ops.write)(&v, &mut w);
                event(at as u64);
                let ctx = || format!("{} failing with {fault:?} at {at} of {len} ({})", ops.name, if sticky { "for good" } else { "once" });
                if !w.fired {
                    // the sink was never asked for the bytes it would have refused
                    fail!("incomplete", "{}: only {} bytes were offered", ctx(), w.accepted.len());
                }
                match r {
                    Ok(()) => fail!("failure-swallowed", "{}: the write reports success", ctx()),
                    Err(e) => ensure!(
                        kind_of(&e) == Some(fault.kind(true)),
                        "wrong-error",
                        "{}: reported {e:?} instead of {:?}",
                        ctx(),
                        fault.kind(true)
                    ),
                }
                ensure!(
                    want.starts_with(&w.accepted),
                    "not-a-prefix",
                    "{}: accepted {} is no prefix of {}",
                    ctx(),
                    hex(&w.accepted),
                    hex(&want)
                );
            }
            1 => {
                // fixed buffer of exactly `at` bytes
                count(C::FullWrite);
                let mut space = vec![0xEE_u8; at];
                let left;
                let r;
                {
                    let mut s = &mut space[..];
                    r = (ops.write)(&v, &mut s);
                    left = s.len();
                }
                match r {
                    Ok(()) => fail!("failure-swallowed", "{}: {at} bytes of space for {len} bytes, success reported", ops.name),
                    Err(e) => ensure!(
                        kind_of(&e) == Some(ErrorKind::WriteZero),
                        "wrong-error",
                        "{}: full buffer reported as {e:?}",
                        ops.name
                    ),
                }
                ensure!(
                    want.starts_with(&space[..at - left]),
                    "not-a-prefix",
                    "{}: buffer of {at} bytes holds {}",
                    ops.name,
                    hex(&space)
                );
            }
            2 => {
                // the standard buffered writer: the failure may only show when it is flushed
                let inner = SimWriter::new(delivery).failing(Some(FailAt { at, fault, sticky: true }));
                let cap = *t.pick(&[1, 8, 64, 8192]);
                let mut w = std::io::BufWriter::with_capacity(cap, inner);
                let r = (ops.write)(&v, &mut w);
                let f = w.flush();
                let failed = r.is_err() || f.is_err();
                let (inner, _) = w.into_parts();
                ensure!(failed, "failure-swallowed", "{}: buffered sink failing at {at} of {len}: success reported", ops.name);
                if let Err(e) = r {
                    ensure!(
                        kind_of(&e) == Some(fault.kind(true)),
                        "wrong-error",
                        "{}: buffered sink failing with {fault:?} reported as {e:?}",
                        ops.name
                    );
                }
                ensure!(want.starts_with(&inner.accepted), "not-a-prefix", "{}: accepted {}", ops.name, hex(&inner.accepted));
            }
            _ => {
                // a sink that recovers: the caller retries the whole message
                let mut w = SimWriter::new(delivery).failing(Some(FailAt { at, fault, sticky: false }));
                let r = (ops.write)(&v, &mut w);
                ensure!(r.is_err(), "failure-swallowed", "{}: {fault:?} at {at}: success reported", ops.name);
                let before = w.accepted.clone();
                ensure!(want.starts_with(&before), "not-a-prefix", "{}: accepted {}", ops.name, hex(&before));
                let r = (ops.write)(&v, &mut w);
                count(C::Retry);
                if let Err(e) = r {
                    fail!("retry-failed", "{}: {e:?} on a recovered sink", ops.name);
                }
                ensure!(
                    w.accepted[before.len()..] == want[..],
                    "retry-differs",
                    "{}: the retry wrote {}",
                    ops.name,
                    hex(&w.accepted[before.len()..])
                );
            }
        }
    }
    let _ = alloc::report();
    Ok(())
}

pub fn c05(t: &mut Tape) -> Check {
    let skipping = t.chance(1, 3);
    // the message
    let (ops, v, w, ty);
    if skipping && t.chance(1, 2) {
        ty = *t.pick(&[8, 3, 4, 5, 6, 7, 9, 10, 11, 12]);
        w = model::gen_wire(t, ty, 0);
        ops = registry().by_name("Empty");
        v = Value::Struct(vec![]);
    } else {
        let c = case(t);
        ops = c.0;
        v = c.1;
        let d = (ops.desc)();
        ty = ops.field_type;
        let mut x = model::to_wire(d, &v);
        if t.chance(1, 2) {
            add_unknown(t, d, &mut x, 3);
        }
        w = x;
    }
    let mut alt = if t.chance(1, 3) { Alt::draw(t) } else { Alt::canonical() };
    let bytes = encoded(&w, &mut alt);
    // skipping a boolean outside of a collection takes no bytes at all
    if skipping && ty <= 2 {
        return Ok(());
    }
    let what = if skipping { What::Skip(ty) } else { What::Read(&ops) };
    let delivery = Delivery::draw(t);
    describe(|| {
        format!(
            "{} {} ({} bytes) cut and failing, delivery {:?} eintr {}%: {}",
            if skipping { "skip" } else { "read" },
            ops.name,
            bytes.len(),
            delivery.chunk,
            delivery.eintr,
            hex(&bytes)
        )
    });
    let verb = if skipping { "skipping" } else { "reading" };
    let name = if skipping { format!("wire type {ty}") } else { ops.name.to_string() };
    for at in cut_points(t, bytes.len(), 40, 12) {
        nontrivial();
        let style = t.weighted(&[3, 3, 4]);
        let o;
        let want;
        let how;
        match style {
            0 => {
                o = consume(what, &bytes[..at], &Source::memory());
                want = ErrorKind::UnexpectedEof;
                how = "memory".to_string();
            }
            1 => {
                let mut s = Source::draw_stream(t, at);
                if t.chance(1, 2) {
                    s.delivery = delivery.clone();
                }
                count(C::EofRead);
                o = consume(what, &bytes[..at], &s);
                want = ErrorKind::UnexpectedEof;
                how = format!("{s:?}");
            }
            _ => {
                let fault = draw_fault(t);
                let kind = match t.weighted(&[5, 1, 1]) {
                    0 => SourceKind::Sim,
                    1 => SourceKind::Buffered(*t.pick(&[1, 7, 64])),
                    _ => SourceKind::Taken,
                };
                // a one-shot end of file in front of more data makes adapters continue
                let sticky = t.chance(1, 2) || fault == Fault::Zero && kind != SourceKind::Sim;
                let s = Source { kind, delivery: delivery.clone(), fail: Some(FailAt { at, fault, sticky }) };
                want = fault.kind(false);
                o = consume(what, &bytes, &s);
                how = format!("{s:?}");
            }
        }
        event(at as u64 * 8 + style as u64);
        match &o.result {
            Ok(x) => fail!(
                "cut-accepted",
                "{verb} {name} cut at {at} of {} from {how} yields {}; bytes {}",
                bytes.len(),
                x.brief(),
                hex(&bytes)
            ),
            Err(e) => ensure!(
                kind_of(e) == Some(want),
                "wrong-error",
                "{verb} {name} cut at {at} of {} from {how} reports {e:?} instead of IO({want:?}); bytes {}",
                bytes.len(),
                hex(&bytes)
            ),
        }
        if t.chance(1, 4) {
            // the source recovers and delivers the message from its start
            count(C::Retry);
            let s = Source::draw(t, bytes.len());
            let o = consume(what, &bytes, &s);
            match &o.result {
                Ok(x) => {
                    ensure!(skipping || *x == v, "retry-differs", "{verb} {name} again from {s:?} yields {} instead of {}", x.brief(), v.brief());
                    ensure!(
                        o.consumed == bytes.len(),
                        "retry-position",
                        "{verb} {name} again from {s:?} consumes {} of {} bytes",
                        o.consumed,
                        bytes.len()
                    );
                }
                Err(e) => fail!("retry-failed", "{verb} {name} again from {s:?}: {e:?}; bytes {}", hex(&bytes)),
            }
        }
    }
    Ok(())
}
