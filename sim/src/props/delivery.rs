//! C01, C02, C04: what is written, what is read, whatever the delivery.

use super::*;
use crate::alloc::tracked;
use crate::corrupt;
use crate::ctx::{count, describe, event, nontrivial, C};
use crate::io::{consume, consume_seq, produce, Sink, Source, What};
use crate::model::{brief, decode, encode_canonical, hex, skip};
use crate::types::WithSet;
use crate::{ensure, fail};
use compact_thrift_runtime::CompactThriftProtocol;

fn messages(t: &mut Tape, max: u64) -> Vec<(TypeOps, Value)> {
    let n = if t.chance(1, 3) { 1 + t.below(max) } else { 1 };
    (0..n).map(|_| case_huge(t, 400)).collect()
}

pub fn c01(t: &mut Tape) -> Check {
    let msgs = messages(t, 4);
    let sink = Sink::draw(t);
    let pairs: Vec<(TypeOps, &Value)> = msgs.iter().map(|(o, v)| (*o, v)).collect();
    let (r, bytes) = produce(&pairs, &sink);
    for (o, v) in &msgs {
        note_shape((o.desc)(), v, bytes.len());
    }
    let names: Vec<&str> = msgs.iter().map(|m| m.0.name).collect();
    let src = Source::draw(t, bytes.len());
    let tail = t.weighted(&[3, 1]) * t.range(1, 30) as usize;
    if msgs.iter().map(|m| m.1.nodes()).sum::<usize>() > 8 {
        nontrivial();
    }
    describe(|| {
        let v: Vec<String> = msgs.iter().map(|m| m.1.brief()).collect();
        format!("{names:?} {v:?} written to {sink:?}, read from {src:?}, {} bytes {}", bytes.len(), hex(&bytes))
    });
    if let Err(e) = r {
        fail!("write-failed", "writing {names:?} to {sink:?} failed with {e:?}");
    }
    event(bytes.len() as u64);
    let mut all = bytes.clone();
    all.extend(std::iter::repeat_n(0x5A, tail));
    let whats: Vec<What> = msgs.iter().map(|m| What::Read(&m.0)).collect();
    let got = consume_seq(&whats, &all, &src);
    for (i, ((o, v), g)) in msgs.iter().zip(&got).enumerate() {
        match &g.result {
            Err(e) => fail!("read-back-failed", "message {i} ({}): {e:?} from {src:?}; bytes {}", o.name, hex(&bytes)),
            Ok(x) => ensure!(
                x == v,
                "value-changed",
                "message {i} ({}): wrote {} read {} from {src:?}; bytes {}",
                o.name,
                v.brief(),
                x.brief(),
                hex(&bytes)
            ),
        }
    }
    let end = got.last().unwrap().consumed;
    ensure!(end == bytes.len(), "not-consumed", "{names:?}: {} of {} bytes consumed from {src:?}", end, bytes.len());
    Ok(())
}

pub fn c02(t: &mut Tape) -> Check {
    if t.chance(1, 200) {
        let (name, n, write) = *t.pick(crate::types::pq::CONSTANTS);
        describe(|| format!("write {name}"));
        let got = tracked(write);
        let want = encode_canonical(model::Desc::I32, &Value::Int(n as i64));
        ensure!(got == want, "wrong-constant", "{name} is written as {} instead of {}", hex(&got), hex(&want));
    }
    if t.chance(1, 400) {
        let (name, write, want) = *t.pick(crate::types::pq::BUILT);
        describe(|| format!("write {name}"));
        let got = tracked(write);
        ensure!(got == want, "wrong-bytes", "{name} is written as {} instead of {}", hex(&got), hex(want));
    }
    let msgs = messages(t, 3);
    let sink = Sink::draw(t);
    let pairs: Vec<(TypeOps, &Value)> = msgs.iter().map(|(o, v)| (*o, v)).collect();
    let mut want = Vec::new();
    for (o, v) in &msgs {
        want.extend(encode_canonical((o.desc)(), v));
        note_shape((o.desc)(), v, want.len());
    }
    let names: Vec<&str> = msgs.iter().map(|m| m.0.name).collect();
    if msgs.iter().map(|m| m.1.nodes()).sum::<usize>() > 8 {
        nontrivial();
    }
    describe(|| {
        let v: Vec<String> = msgs.iter().map(|m| m.1.brief()).collect();
        format!("{names:?} {v:?} to {sink:?} -> {} bytes {}", want.len(), hex(&want))
    });
    let (r, got) = produce(&pairs, &sink);
    if let Err(e) = r {
        fail!("write-failed", "writing {names:?} to {sink:?} failed with {e:?}");
    }
    event(got.len() as u64);
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        let from = at.saturating_sub(8);
        fail!(
            "wrong-bytes",
            "{names:?} to {sink:?}: byte {at} differs: accepted ..{} expected ..{}; value {}",
            hex(&got[from.min(got.len())..(at + 16).min(got.len())]),
            hex(&want[from.min(want.len())..(at + 16).min(want.len())]),
            brief(&format!("{:?}", msgs.iter().map(|m| &m.1).collect::<Vec<_>>()), 300)
        );
    }
    Ok(())
}

/// thrift sets are tagged as lists
pub fn finding_set() -> Check {
    let v = WithSet { ids: vec![1, 2, 3] };
    let mut b = Vec::new();
    tracked(|| v.write_thrift(&mut b)).map_err(|e| crate::ctx::Fail { class: "write-failed".into(), detail: format!("{e:?}") })?;
    let want = [0x1a, 0x35, 2, 4, 6, 0];
    ensure!(b == want, "set-tag", "struct {{ 1: required set<i32> }} with 1, 2, 3 is written as {} instead of {}", hex(&b), hex(&want));
    Ok(())
}

pub fn c04(t: &mut Tape) -> Check {
    // the bytes
    let (ops, v) = case_huge(t, 300);
    let d = (ops.desc)();
    let skipping = t.chance(1, 5);
    let mut w = model::to_wire(d, &v);
    if t.chance(1, 3) {
        add_unknown(t, d, &mut w, 3);
    }
    if t.chance(1, 4) {
        let mut hits = Vec::new();
        visit(d, &mut w, &mut |d, _| hits.push(matches!(d, Desc::Struct(_))));
        let which = t.idx(hits.len());
        let mut k = 0;
        let mut todo = Some(&mut *t);
        visit(d, &mut w, &mut |_, w| {
            if k == which {
                if let (W::Struct(s), Some(t)) = (w, todo.as_mut()) {
                    shuffle(t, s);
                    count(C::FieldReorder);
                }
            }
            k += 1;
        });
    }
    let mut before = encoded(&w, &mut Alt::canonical());
    let bad_text = t.chance(1, 8) && invalid_text(t, d, &mut w);
    let mut alt = if t.chance(1, 2) { Alt::draw(t) } else { Alt::canonical() };
    let clean = encoded(&w, &mut alt);
    if clean != encoded(&w, &mut Alt::canonical()) {
        count(C::Alternative);
    }
    let mut bytes = clean.clone();
    let mut faults = Vec::new();
    if bad_text {
        faults.push("invalid text");
    }
    if t.chance(1, 2) {
        faults.extend(corrupt::corrupt_some(t, &mut bytes));
    }
    let tail = t.weighted(&[2, 3]) * t.range(1, 20) as usize;
    for _ in 0..tail {
        bytes.push(t.below(256) as u8);
    }
    // the buffer may have held another message before
    let reuse = t.chance(1, 3);
    before.resize(bytes.len(), 0);
    // trailing bytes must not matter, so they are drawn before the sources
    let what = if skipping { What::Skip(ops.field_type) } else { What::Read(&ops) };
    let a = Source::draw_stream(t, bytes.len());
    let b = Source::draw_stream(t, bytes.len());
    if bytes.len() > 8 {
        nontrivial();
    }
    describe(|| {
        format!(
            "{} {} faults {faults:?} from memory, {a:?} and {b:?}: {}",
            if skipping { "skip" } else { "read" },
            ops.name,
            hex(&bytes)
        )
    });
    let reference = if skipping { skip(ops.field_type, &bytes) } else { decode(d, &bytes) };
    if reuse {
        // memory sources of the same length are at the same address
        count(C::BufferReuse);
        event(consume(what, &before, &Source::memory()).consumed as u64);
    }
    let mem = consume(what, &bytes, &Source::memory());
    if mem.result.is_ok() {
        if !faults.is_empty() {
            count(C::DecodedOk);
        }
    } else {
        count(C::DecodedErr);
    }
    event(mem.consumed as u64 * 2 + mem.result.is_ok() as u64);
    for s in [&a, &b] {
        let o = consume(what, &bytes, s);
        match (&mem.result, &o.result) {
            (Ok(x), Ok(y)) => {
                ensure!(
                    x == y,
                    "values-differ",
                    "{}: memory gives {}, {s:?} gives {}; bytes {}",
                    ops.name,
                    x.brief(),
                    y.brief(),
                    hex(&bytes)
                );
                ensure!(
                    mem.consumed == o.consumed,
                    "positions-differ",
                    "{}: memory consumes {} bytes, {s:?} {}; bytes {}",
                    ops.name,
                    mem.consumed,
                    o.consumed,
                    hex(&bytes)
                );
            }
            (Err(_), Err(_)) => ensure!(
                mem.err() == o.err(),
                "errors-differ",
                "{}: memory gives {}, {s:?} gives {}; bytes {}",
                ops.name,
                mem.err(),
                o.err(),
                hex(&bytes)
            ),
            _ => fail!(
                "outcomes-differ",
                "{}: memory gives {}, {s:?} gives {}; bytes {}",
                ops.name,
                mem.brief(),
                o.brief(),
                hex(&bytes)
            ),
        }
    }
    // the reference has its say wherever the specification does
    if reference.unspecified {
        count(C::Unspecified);
        ensure!(
            !faults.is_empty() || skipping,
            "harness",
            "reference leaves an uncorrupted message open: {} {}",
            ops.name,
            hex(&bytes)
        );
        return Ok(());
    }
    match (&reference.result, &mem.result) {
        (Ok(x), Ok(y)) => {
            ensure!(
                skipping || x == y,
                "value-not-in-bytes",
                "{}: the bytes mean {}, read {}; bytes {}",
                ops.name,
                x.brief(),
                y.brief(),
                hex(&bytes)
            );
            ensure!(
                reference.consumed == mem.consumed,
                "wrong-position",
                "{}: the message has {} bytes, {} were consumed; bytes {}",
                ops.name,
                reference.consumed,
                mem.consumed,
                hex(&bytes)
            );
        }
        (Ok(x), Err(e)) => {
            fail!("legal-bytes-rejected", "{}: the bytes mean {}, reading gives {e:?}; bytes {}", ops.name, x.brief(), hex(&bytes))
        }
        (Err(e), Ok(x)) => {
            fail!("illegal-bytes-accepted", "{}: the bytes are invalid ({e}), read {}; bytes {}", ops.name, x.brief(), hex(&bytes))
        }
        (Err(_), Err(_)) => {}
    }
    if faults.is_empty() && !skipping {
        ensure!(
            reference.result.as_ref().ok() == Some(&v),
            "harness",
            "reference does not read back its own encoding of {}: {}",
            ops.name,
            hex(&bytes)
        );
    }
    Ok(())
}
