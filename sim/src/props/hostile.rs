//! C06: arbitrary bytes.

use super::*;
use crate::alloc::{self, tracked};
use crate::corrupt;
use crate::ctx::{count, describe, event, nontrivial, C};
use crate::io::{consume, Delivery, Source, SourceKind, What};
use crate::model::{hex, Desc};
use crate::preempt;
use crate::types::Tree;
use crate::ensure;
use compact_thrift_runtime::{CompactThriftInputSlice, CompactThriftProtocol, ThriftError};

fn synthetic(t: &mut Tape) -> Vec<u8> {
    let n = match t.weighted(&[3, 3, 1]) {
        0 => t.below(24) as usize,
        1 => t.below(120) as usize,
        _ => t.below(2000) as usize,
    };
    let style = t.below(7);
    let mut b: Vec<u8> = (0..n)
        .map(|_| match style {
            0 => t.below(256) as u8,
            1 => 0x80 | t.below(128) as u8,
            2 => *t.pick(&[0x1c, 0x19, 0x1b, 0x1a, 0x18, 0x15, 0x16, 0x17, 0x11, 0x12, 0x13, 0x00, 0x0c, 0x09, 0x0b, 0x08]),
            3 => *t.pick(&[0xff, 0x00, 0x7f, 0x80]),
            4 => *t.pick(&[0xfc, 0xf9, 0xfb, 0xf5, 0xf8, 0xff, 0x0f, 0x01, 0x80, 0x04]),
            5 => ((t.below(16) as u8) << 4) | *t.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0]),
            _ => 0xFF,
        })
        .collect();
    if t.chance(1, 6) {
        corrupt::corrupt(t, &mut b);
    }
    b
}

/// an integer of extreme length at a chosen distance from the end, in a field to be skipped or read
fn long_integers(t: &mut Tape) -> Vec<u8> {
    let mut b = Vec::new();
    let n = 1 + t.below(4);
    for _ in 0..n {
        b.push(*t.pick(&[0x15, 0x16, 0x14, 0x95, 0xf6, 0x19, 0x18]));
        if b.last() == Some(&0x19) {
            b.push(*t.pick(&[0x15, 0x25, 0x86, 0xf4]));
        }
        let len = *t.pick(&[0, 1, 2, 5, 9, 10, 11, 14, 15, 16, 17, 18, 31, 32, 33, 40, 100]);
        for _ in 0..len {
            b.push(0x80 | t.below(128) as u8);
        }
        if t.chance(4, 5) {
            b.push(t.below(128) as u8);
        }
    }
    let pad = t.below(20);
    for _ in 0..pad {
        b.push(*t.pick(&[0, 0x80, 0xff]));
    }
    b
}

/// collections that announce far more elements than there are bytes
fn hollow(t: &mut Tape) -> Vec<u8> {
    let mut b = Vec::new();
    for _ in 0..t.below(3) {
        b.extend_from_slice(t.pick::<&[u8]>(&[&[0x15, 0x02], &[0x11], &[0x18, 0x01, 0x61], &[0x1c], &[0x19, 0x1c], &[0x1b, 0x01, 0x5c, 0x02]]));
    }
    let varint = |mut n: u64, b: &mut Vec<u8>| {
        while n >= 0x80 {
            b.push(0x80 | n as u8);
            n >>= 7;
        }
        b.push(n as u8);
    };
    for _ in 0..1 + t.below(3) {
        let n = *t.pick(&[1u64 << 20, 9_999_999, 10_000_000, 10_000_000, 10_000_001, 1 << 31, (1 << 31) - 1, 5_000_000, 100_000]);
        if t.chance(1, 3) {
            b.push(0x1b);
            varint(n, &mut b);
            b.push(t.below(256) as u8);
        } else {
            b.push(*t.pick(&[0x19, 0x1a]));
            b.push(0xf0 | t.below(16) as u8);
            varint(n, &mut b);
        }
        for _ in 0..t.below(4) {
            b.push(*t.pick(&[0, 0, 1, 2, 0x15, 0x1c]));
        }
    }
    b.extend(std::iter::repeat_n(0, t.below(6) as usize));
    b
}

/// instructions that `bytes` of input may take
fn work(bytes: usize) -> u64 {
    20_000 + 3_000 * bytes as u64
}

pub fn c06(t: &mut Tape) -> Check {
    let ops = registry().pick(t);
    let d = (ops.desc)();
    let skipping = t.chance(1, 4);
    let ty = if t.chance(1, 2) { ops.field_type } else { t.below(16) as u8 };
    let mut how = Vec::new();
    let mut before = Vec::new();
    let mut counting = false;
    let bytes = match t.weighted(&[100, 40, 40, 5]) {
        3 => {
            how.push("hollow collections");
            let b = hollow(t);
            counting = t.chance(1, 8);
            b
        }
        0 => {
            let sz = if t.chance(1, 2) { Sizes::small() } else { Sizes::draw(t) };
            let v = model::gen(t, d, &sz);
            let mut w = model::to_wire(d, &v);
            if t.chance(1, 2) {
                add_unknown(t, d, &mut w, 3);
            }
            before = encoded(&w, &mut Alt::canonical());
            let bad_text = t.chance(1, 5) && invalid_text(t, d, &mut w);
            let mut alt = if t.chance(1, 3) { Alt::draw(t) } else { Alt::canonical() };
            let mut b = encoded(&w, &mut alt);
            if bad_text {
                how.push("invalid text");
            }
            if !bad_text || t.chance(1, 2) {
                how.extend(corrupt::corrupt_some(t, &mut b));
            }
            b
        }
        1 => {
            how.push("synthetic");
            synthetic(t)
        }
        _ => {
            how.push("long integers");
            long_integers(t)
        }
    };
    if bytes.len() >= 4 {
        nontrivial();
    }
    counting |= bytes.len() <= 200 && t.chance(1, 600);
    // long enough for what grows faster than the bytes
    counting |= (20_000..100_000).contains(&bytes.len()) && t.chance(1, 800);
    let what = if skipping { What::Skip(ty) } else { What::Read(&ops) };
    let stream = if t.chance(1, 2) {
        Source { kind: SourceKind::Sim, delivery: Delivery::draw(t), fail: None }
    } else {
        Source::draw_stream(t, bytes.len())
    };
    let name = if skipping { format!("skipping wire type {ty}") } else { format!("reading {}", ops.name) };
    describe(|| format!("{name}, {}, memory and {stream:?}: {} bytes {}", corrupt::note(&how), bytes.len(), hex(&bytes)));
    if !before.is_empty() && t.chance(1, 3) {
        // the buffer has held the undamaged message before
        before.resize(bytes.len(), 0);
        count(C::BufferReuse);
        event(consume(what, &before, &Source::memory()).consumed as u64);
    }
    let mut first: Option<crate::io::Outcome> = None;
    for s in [&Source::memory(), &stream] {
        alloc::reset();
        let o;
        if counting && first.is_none() {
            let limit = work(bytes.len());
            let used;
            (used, o) = preempt::counted(limit, || consume(what, &bytes, s));
            count(C::Counted);
            ensure!(
                used < limit,
                "too-much-work",
                "{name} from memory: more than {limit} instructions for {} bytes {}",
                bytes.len(),
                hex(&bytes)
            );
        } else {
            o = consume(what, &bytes, s);
        }
        event(o.result.is_ok() as u64);
        count(if o.result.is_ok() { C::DecodedOk } else { C::DecodedErr });
        if let Err(ThriftError::MissingField(field)) = &o.result {
            // names are stored as a pointer
            let field = field.to_string();
            ensure!(
                !field.is_empty() && field.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b':'),
                "foreign-memory",
                "{name} from {s:?}: the error names {field:?}"
            );
        }
        if s.kind == SourceKind::Sim {
            ensure!(
                o.eof_calls <= 1 && o.calls_after_error == 0,
                "keeps-working",
                "{name} from {s:?}: {} calls after the input was used up; bytes {}",
                o.eof_calls.max(1) - 1 + o.calls_after_error,
                hex(&bytes)
            );
            ensure!(
                o.calls - o.interrupts <= bytes.len() as u64 + 2,
                "too-much-work",
                "{name} from {s:?}: {} calls for {} bytes; bytes {}",
                o.calls,
                bytes.len(),
                hex(&bytes)
            );
        }
        ensure!(
            o.consumed <= bytes.len(),
            "overread",
            "{name} from {s:?}: {} of {} bytes consumed",
            o.consumed,
            bytes.len()
        );
        if let Some(m) = &first {
            // what was never in the input must not show up in a value
            if let (Ok(a), Ok(b)) = (&m.result, &o.result) {
                ensure!(
                    a == b,
                    "foreign-memory",
                    "{name}: memory gives {}, {s:?} gives {}; bytes {}",
                    a.brief(),
                    b.brief(),
                    hex(&bytes)
                );
            }
        }
        first.get_or_insert(o);
    }
    Ok(())
}

/// typed decoding of a type that contains itself recurses once per level of the message
pub fn finding_typed_recursion() -> Check {
    let _ = Desc::Bool;
    let depth = 200_000;
    let mut b = Vec::with_capacity(depth * 4);
    for _ in 0..depth {
        // 1: i32 0, 2: struct
        b.extend_from_slice(&[0x15, 0x00, 0x1c]);
    }
    b.extend_from_slice(&[0x15, 0x00, 0x00]);
    b.extend(std::iter::repeat_n(0, depth));
    let r = tracked(|| Tree::read_thrift(&mut CompactThriftInputSlice::new(&b)));
    // not dropped: dropping a deep value recurses as well
    std::mem::forget(r);
    Ok(())
}
