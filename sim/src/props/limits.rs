//! C07: length limits and refused allocations.

use super::*;
use crate::alloc;
use crate::corrupt::varint_bytes;
use crate::ctx::{count, describe, event, nontrivial, C};
use crate::io::{consume, Delivery, Fault, Outcome, SimWriter, Source, SourceKind, What};
use crate::model::{hex, MAX_BIN, MAX_COLL};
use crate::types::{pq, Lists, OptScalars};
use crate::{ensure, fail};
use compact_thrift_runtime::{CompactThriftProtocol, ThriftError};
use std::io::ErrorKind;

fn sources(t: &mut Tape) -> Source {
    if t.chance(1, 2) {
        let delivery = Delivery::draw(t);
        Source { kind: SourceKind::Sim, delivery, fail: None }
    } else {
        Source::memory()
    }
}

fn too_long(e: &ThriftError) -> bool {
    matches!(e, ThriftError::InvalidBinaryLen(_) | ThriftError::InvalidCollectionLen)
}

/// lengths beyond a limit
fn beyond(t: &mut Tape, limit: u64) -> u64 {
    match t.weighted(&[4, 1, 1, 1, 1, 1, 1, 1, 1]) {
        0 => limit + 1,
        1 => limit + 1 + t.below(100),
        2 => limit * 2,
        3 => (1 << 31) - 1 + t.below(3),
        4 => (1 << 32) + t.below(limit),
        5 => (1 << 32) - 1,
        6 => (1 << 63) - 1 + t.below(3),
        7 => u64::MAX - t.below(3),
        _ => limit + 1 + t.below(u64::MAX - limit - 1),
    }
}

pub fn c07(t: &mut Tape) -> Check {
    nontrivial();
    match if model::small() { 0 } else { t.weighted(&[10, 10, 12, 4, 2]) } {
        0 => refused_length(t),
        1 => announced_length(t),
        2 => refused_memory(t),
        3 => written_length(t),
        _ => full_length(t),
    }
}

/// where an announced length can stand; the bytes up to and including the length
#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    Binary,
    ListOfBinary,
    Collection,
    StructField,
    UnknownField,
    Map,
    MapValue,
}

struct Spot {
    name: String,
    bytes: Vec<u8>,
    what: Option<TypeOps>,
    skip: u8,
    binary: bool,
    /// size of an element in memory
    size: usize,
}

fn spot(t: &mut Tape, len: u64) -> Spot {
    let lens = varint_bytes(len);
    let place = *t.pick(&[
        Place::Binary,
        Place::ListOfBinary,
        Place::Collection,
        Place::StructField,
        Place::UnknownField,
        Place::Map,
        Place::MapValue,
    ]);
    let mut b = Vec::new();
    let reg = registry();
    let mut s = Spot { name: format!("{place:?}"), bytes: vec![], what: None, skip: 12, binary: false, size: 1 };
    match place {
        Place::Binary => {
            s.binary = true;
            s.skip = 8;
            s.what = Some(reg.by_name(*t.pick(&["Vec<u8>", "String", "Box<str>", "Rc<str>", "Arc<str>", "Cow<str>", "Cow<[u8]>"])));
            b.extend(lens);
        }
        Place::ListOfBinary => {
            s.binary = true;
            s.skip = 9;
            s.what = Some(reg.by_name(*t.pick(&["Vec<Vec<u8>>", "Vec<String>", "Vec<Arc<str>>"])));
            b.extend([0x28, 1, b'x']);
            b.extend(lens);
        }
        Place::Collection => {
            s.skip = *t.pick(&[9, 10]);
            let (n, ty, size) = *t.pick(&[
                ("Vec<bool>", 2, 1),
                ("Vec<i8>", 3, 1),
                ("Vec<i16>", 4, 2),
                ("Vec<i32>", 5, 4),
                ("Vec<i64>", 6, 8),
                ("Vec<f64>", 7, 8),
                ("Vec<Color>", 5, 4),
                ("Vec<Empty>", 12, 0),
                ("EncodingSet", 5, 0),
                ("Vec<Vec<u8>>", 8, 24),
                ("Matrix", 9, 24),
                ("", 10, 0),
                ("", 11, 0),
                ("", 1, 0),
            ]);
            s.size = size;
            if !n.is_empty() {
                s.what = Some(reg.by_name(n));
            }
            b.push(0xF0 | ty);
            b.extend(lens);
        }
        Place::StructField => {
            // OptScalars 7: string, 8: binary; Lists 1: list<bool>
            if t.chance(1, 2) {
                s.binary = true;
                s.what = Some(reg.by_name("OptScalars"));
                b.push(*t.pick(&[0x78, 0x88]));
                b.extend(lens);
            } else {
                s.what = Some(reg.by_name("Lists"));
                b.extend([0x19, *t.pick(&[0xF1, 0xF2])]);
                b.extend(lens);
            }
        }
        Place::UnknownField => {
            // id 14 is unknown to OptScalars, Lists and RowGroup
            s.what = Some(reg.by_name(*t.pick(&["OptScalars", "Lists", "RowGroup"])));
            let lead: &[u8] = *t.pick(&[
                [0xE8].as_slice(),
                &[0xE9, 0xF5],
                &[0xE9, 0xF8],
                &[0xEA, 0xFC],
                &[0xE9, 0x18],
                &[0xE9, 0x19, 0xF3],
                &[0xEC, 0x18],
            ]);
            s.binary = matches!(lead, [0xE8] | [0xE9, 0x18] | [0xEC, 0x18]);
            b.extend(lead);
            b.extend(lens);
        }
        Place::Map => {
            s.skip = 11;
            b.extend(lens);
            b.push(*t.pick(&[0x33, 0x58, 0x11, 0x8c]));
        }
        Place::MapValue => {
            s.skip = 11;
            s.binary = true;
            b.extend([0x01, 0x38, 0x07]);
            b.extend(lens);
        }
    }
    if t.chance(1, 3) {
        // inside of other values that are skipped
        let mut ty = if matches!(place, Place::StructField | Place::UnknownField) { 12 } else { s.skip };
        let levels = *t.pick(&[1, 2, 3, 5, 9, 20]);
        let mut lead = Vec::new();
        for _ in 0..levels {
            let (head, outer): (&[u8], u8) = match t.below(5) {
                0 => (&[0x10 | ty], 9),
                1 => (&[0x10 | ty], 10),
                2 => (&[0x10 | ty], 12),
                3 => (&[0x18, 1, b'x', 0x10 | ty], 12),
                _ => (&[1, 0x30 | ty, 7], 11),
            };
            lead.splice(0..0, head.iter().copied());
            ty = outer;
        }
        s.what = None;
        s.skip = ty;
        if t.chance(1, 2) {
            s.what = Some(reg.by_name(*t.pick(&["OptScalars", "Lists", "RowGroup"])));
            lead.insert(0, 0xE0 | ty);
            s.skip = 12;
        }
        s.name = format!("{} below {levels} levels", s.name);
        b.splice(0..0, lead);
    }
    s.bytes = b;
    s
}

fn consume_spot(t: &mut Tape, s: &Spot, bytes: &[u8]) -> (Outcome, String) {
    let skip = s.what.is_none() || t.chance(1, 2);
    let src = sources(t);
    let what = if skip { What::Skip(s.skip) } else { What::Read(s.what.as_ref().unwrap()) };
    alloc::reset();
    let o = consume(what, bytes, &src);
    let name = if skip {
        format!("skipping {} (wire type {})", s.name, s.skip)
    } else {
        format!("reading {} as {}", s.name, s.what.as_ref().unwrap().name)
    };
    (o, format!("{name} from {src:?}"))
}

/// more than the limit: refused before memory is reserved and content consumed
fn refused_length(t: &mut Tape) -> Check {
    let choice = t.below(1 << 20);
    let binary = spot(&mut Tape::unrecorded(choice), 1).binary;
    let limit = if binary { MAX_BIN } else { MAX_COLL };
    let len = beyond(t, limit);
    let s = spot(&mut Tape::unrecorded(choice), len);
    let mut bytes = s.bytes.clone();
    let tail = *t.pick(&[0, 1, 50, 300]);
    bytes.extend(std::iter::repeat_n(*t.pick(&[0_u8, 1, 0x80]), tail));
    count(C::LimitExceeded);
    count(C::LenClaim);
    let (o, name) = consume_spot(t, &s, &bytes);
    describe(|| format!("{name}: length {len}, limit {limit}, bytes {}", hex(&bytes)));
    event(len);
    match &o.result {
        Ok(_) => fail!("limit-ignored", "{name}: length {len} accepted; bytes {}", hex(&bytes)),
        Err(e) => ensure!(too_long(e), "limit-ignored", "{name}: length {len} reported as {e:?}; bytes {}", hex(&bytes)),
    }
    let m = alloc::report();
    ensure!(m.max_request < 1 << 16, "memory-reserved", "{name}: {} bytes requested for a refused length {len}", m.max_request);
    ensure!(
        o.consumed <= s.bytes.len(),
        "content-consumed",
        "{name}: {} bytes consumed, the length ends at {}; bytes {}",
        o.consumed,
        s.bytes.len(),
        hex(&bytes)
    );
    Ok(())
}

/// up to the limit: not refused (the content is missing, so the end of the input is reported)
fn announced_length(t: &mut Tape) -> Check {
    let choice = t.below(1 << 20);
    let probe = spot(&mut Tape::unrecorded(choice), 1);
    let limit = if probe.binary { MAX_BIN } else { MAX_COLL };
    let mut len = match t.weighted(&[4, 2, 2]) {
        0 => limit,
        1 => limit - 1 - t.below(3),
        _ => 20 + t.below(limit - 20),
    };
    if !probe.binary && probe.size > 8 {
        // stay below what the simulated allocator grants
        len = len.min((alloc::HARD_CAP / (2 * probe.size)) as u64);
    }
    let s = spot(&mut Tape::unrecorded(choice), len);
    if len == limit {
        count(C::LimitHit);
    }
    let (o, name) = consume_spot(t, &s, &s.bytes);
    describe(|| format!("{name}: length {len}, limit {limit}, bytes {}", hex(&s.bytes)));
    event(len);
    match &o.result {
        Ok(x) => fail!("nothing-read", "{name}: length {len} without content yields {}", x.brief()),
        Err(ThriftError::IO(ErrorKind::UnexpectedEof)) => Ok(()),
        Err(e) => fail!("legal-length-refused", "{name}: length {len} reported as {e:?}; bytes {}", hex(&s.bytes)),
    }
}

/// list memory that cannot be obtained
fn refused_memory(t: &mut Tape) -> Check {
    let names = [
        "Vec<i64>",
        "Vec<bool>",
        "Vec<f64>",
        "Matrix",
        "Vec<Matrix>",
        "Vec<Choice>",
        "Vec<Scalars>",
        "Nested",
        "Lists",
        "Vec<i32>",
        "FileMetaData",
        "RowGroup",
        "ColumnIndex",
        "OffsetIndex",
        "Arc<Vec<i64>>",
        "Vec<ListOfBool>",
        "Vec<Empty>",
        "SizeStatistics",
    ];
    let ops = registry().by_name(*t.pick(&names));
    let sz = Sizes { nodes: 200, long_list: 4, long_bin: 0, opt: 3, huge: false, palette: 0, medium: 0 };
    let v = model::gen(t, (ops.desc)(), &sz);
    let bytes = encoded(&model::to_wire((ops.desc)(), &v), &mut Alt::canonical());
    let src = sources(t);
    // how much does it ask for?
    alloc::reset();
    let o = consume(What::Read(&ops), &bytes, &src);
    let need = alloc::report().max_request;
    if let Err(e) = &o.result {
        fail!("read-failed", "{} from {src:?}: {e:?} without memory pressure; bytes {}", ops.name, hex(&bytes));
    }
    // strings, binaries and boxes are not covered by the promise and stay below this size
    let floor = 2600;
    if need <= floor {
        // small message: announce a long list instead
        let mut b = vec![0xF0 | 6];
        let len = 1 + t.below(MAX_COLL);
        b.extend(varint_bytes(len));
        b.extend(std::iter::repeat_n(0, 40));
        let budget = 1000 + t.below(100_000) as usize;
        let ops = registry().by_name("Vec<i64>");
        alloc::reset();
        alloc::set_budget(budget);
        let o = consume(What::Read(&ops), &b, &src);
        let m = alloc::report();
        alloc::reset();
        event(m.refused);
        if m.refused > 0 {
            count(C::AllocFail);
        }
        describe(|| format!("Vec<i64> of {len} announced elements from {src:?}, allocations above {budget} bytes refused"));
        // 40 bytes of content cannot satisfy more than 40 elements
        ensure!(o.result.is_err() || len <= 40, "failure-swallowed", "Vec<i64> with {len} announced elements: {}", o.brief());
        return Ok(());
    }
    let budget = floor + t.below((need - floor) as u64) as usize;
    alloc::set_budget(budget);
    let o = consume(What::Read(&ops), &bytes, &src);
    let m = alloc::report();
    alloc::reset();
    event(m.refused);
    describe(|| format!("{} from {src:?}, largest allocation {need}, refused above {budget}: {}", ops.name, hex(&bytes)));
    if m.refused > 0 {
        count(C::AllocFail);
        ensure!(
            o.result.is_err(),
            "failure-swallowed",
            "{} from {src:?}: allocation refused above {budget} bytes, success reported",
            ops.name
        );
    }
    if let Ok(x) = &o.result {
        ensure!(*x == v, "value-changed", "{} under memory pressure yields {}", ops.name, x.brief());
    }
    count(C::Retry);
    let o = consume(What::Read(&ops), &bytes, &src);
    match &o.result {
        Ok(x) => ensure!(*x == v && o.consumed == bytes.len(), "retry-differs", "{}: {} with memory available", ops.name, x.brief()),
        Err(e) => fail!("retry-failed", "{} from {src:?}: {e:?} with memory available", ops.name),
    }
    Ok(())
}

/// what is too long is not written
fn written_length(t: &mut Tape) -> Check {
    let over = t.chance(1, 2);
    let inside = t.chance(1, 2);
    let which = t.below(10);
    let bin = MAX_BIN as usize + over as usize * (1 + t.below(3) as usize);
    let coll = MAX_COLL as usize + over as usize * (1 + t.below(3) as usize);
    count(if over { C::LimitExceeded } else { C::LimitHit });
    // lengths count bytes, whatever the characters
    let text = match t.below(4) {
        0 => "x".repeat(bin),
        1 => "é".repeat(bin / 2) + &"x".repeat(bin % 2),
        2 => "€".repeat(bin / 3) + &"x".repeat(bin % 3),
        _ => "𝄞".repeat(bin / 4) + &"x".repeat(bin % 4),
    };
    // accepts what is below the limit, counts only
    struct Count(u64);
    impl std::io::Write for Count {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.0 += b.len() as u64;
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let mut w = Count(0);
    let (name, r, least) = match (which, inside) {
        (0 | 4, false) => ("Vec<u8>", vec![0_u8; bin].write_thrift(&mut w), bin),
        (0 | 4, true) => {
            let x = OptScalars { bin: Some(vec![0; bin]), ..Default::default() };
            ("binary field", x.write_thrift(&mut w), bin)
        }
        (1 | 5, false) => ("String", text.write_thrift(&mut w), bin),
        (1 | 5, true) => {
            let x = OptScalars { s: Some(text), ..Default::default() };
            ("string field", x.write_thrift(&mut w), bin)
        }
        (6, false) => ("Arc<str>", std::sync::Arc::<str>::from(text).write_thrift(&mut w), bin),
        (6, true) => ("Rc<str>", std::rc::Rc::<str>::from(text).write_thrift(&mut w), bin),
        (7, false) => ("Cow<[u8]>", std::borrow::Cow::<'static, [u8]>::from(vec![b'x'; bin]).write_thrift(&mut w), bin),
        (7, true) => ("Cow<str>", std::borrow::Cow::<'static, str>::from(text).write_thrift(&mut w), bin),
        (8, false) => ("Box<str>", text.into_boxed_str().write_thrift(&mut w), bin),
        (8, true) => ("Vec<String>", vec!["x".to_string(), text].write_thrift(&mut w), bin),
        (2, false) => ("Vec<bool>", vec![true; coll].write_thrift(&mut w), coll),
        (2, true) => {
            let x = Lists { bools: vec![false; coll], ..Default::default() };
            ("list field", x.write_thrift(&mut w), coll)
        }
        (_, false) => ("Vec<i8>", vec![0_i8; coll].write_thrift(&mut w), coll),
        (_, true) => {
            let x = pq::ListType {};
            ("Vec<ListType>", vec![x; coll].write_thrift(&mut w), coll)
        }
    };
    describe(|| format!("write {name} of length {least}"));
    event(least as u64 * 8 + which);
    let _ = (Fault::Zero, SimWriter::new(Delivery::smooth()).calls);
    match r {
        Ok(()) => {
            ensure!(!over, "limit-ignored", "{name} of length {least} was written");
            ensure!(w.0 > least as u64, "incomplete", "{name} of length {least}: only {} bytes written", w.0);
        }
        Err(e) => {
            ensure!(over, "legal-length-refused", "writing {name} of length {least}: {e:?}");
            ensure!(too_long(&e), "wrong-error", "writing {name} of length {least}: {e:?}");
            ensure!(w.0 < 64, "content-written", "{name} of length {least}: {} bytes written before it was refused", w.0);
        }
    }
    Ok(())
}

/// complete values of exactly the limit
fn full_length(t: &mut Tape) -> Check {
    count(C::LimitHit);
    count(C::BigMessage);
    let src = if t.chance(1, 2) {
        let chunk = *t.pick(&[crate::io::Chunk::All, crate::io::Chunk::Fixed(100_000)]);
        Source { kind: SourceKind::Sim, delivery: Delivery { chunk, ..Delivery::smooth() }, fail: None }
    } else {
        Source::memory()
    };
    let skip = t.chance(1, 2);
    let (ops, ty, bytes) = match t.weighted(&[3, 2, 1, 1, 1]) {
        0 => {
            let mut b = varint_bytes(MAX_BIN);
            b.resize(b.len() + MAX_BIN as usize, b'y');
            (registry().by_name(*t.pick(&["Vec<u8>", "String", "Box<str>", "Cow<str>"])), 8, b)
        }
        1 => {
            let mut b = vec![0xF2];
            b.extend(varint_bytes(MAX_COLL));
            b.resize(b.len() + MAX_COLL as usize, 1);
            (registry().by_name("Vec<bool>"), 9, b)
        }
        2 => {
            let mut b = vec![0xF5];
            b.extend(varint_bytes(MAX_COLL));
            b.resize(b.len() + MAX_COLL as usize, 2);
            (registry().by_name("Vec<i32>"), 9, b)
        }
        3 => {
            let mut b = vec![0xFC];
            b.extend(varint_bytes(MAX_COLL));
            b.resize(b.len() + MAX_COLL as usize, 0);
            (registry().by_name("Vec<Empty>"), *t.pick(&[9, 10]), b)
        }
        _ => {
            let mut b = varint_bytes(MAX_COLL);
            b.push(0x35);
            b.resize(b.len() + 2 * MAX_COLL as usize, 6);
            (registry().by_name("Empty"), 11, b)
        }
    };
    // converting ten million elements for inspection is slow: skip, or decode and count
    let o;
    let name;
    if skip || ty == 11 {
        o = consume(What::Skip(ty), &bytes, &src);
        name = format!("skipping wire type {ty} of maximal length from {src:?}");
    } else {
        o = consume(What::Read(&ops), &bytes, &src);
        name = format!("reading {} of maximal length from {src:?}", ops.name);
        if let Ok(v) = &o.result {
            let n = match v {
                Value::Bytes(b) => b.len() as u64 == MAX_BIN && b.iter().all(|x| *x == b'y'),
                Value::List(l) => l.len() as u64 == MAX_COLL,
                _ => false,
            };
            ensure!(n, "value-changed", "{name}: wrong value {}", v.brief().chars().take(100).collect::<String>());
        }
    }
    describe(|| name.clone());
    match &o.result {
        Ok(_) => ensure!(o.consumed == bytes.len(), "wrong-position", "{name}: {} of {} bytes consumed", o.consumed, bytes.len()),
        Err(e) => fail!("legal-length-refused", "{name}: {e:?}"),
    }
    Ok(())
}
