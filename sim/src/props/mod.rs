//! One module per property. Each `run` draws a complete simulated execution from the tape
//! and returns the first violation.

use crate::ctx::{self, Check};
use crate::model::{self, Alt, Desc, Sizes, Value, WStruct, W};
use crate::tape::Tape;
use crate::types::{registry, TypeOps};

mod delivery;
mod faults;
mod fields;
mod file;
mod hostile;
mod limits;
mod owners;
mod sessions;

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub run: fn(&mut Tape) -> Check,
    /// runs of the quick check
    pub quick: u64,
    pub thorough_factor: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
    /// counters that must not stay at zero
    pub expects: &'static [&'static str],
    /// single cases that are listed as known findings
    pub findings: &'static [(&'static str, fn() -> Check)],
}

const REAL: &str = "compact-thrift-runtime (protocol, types, macros, uleb, error) and compact-thrift-parquet (all metadata types) as built from /repo, the standard library's read_exact / write_all and adapters";
const STUB: &str = "sources and sinks (simulated streams that split, interrupt and fail calls on command), the memory of slice sources (mapped so that it ends at an unmapped page), the global allocator (counting, red zones, refusal)";
const ASSUME: &[&str] = &[
    "the reference encoder and decoder in sim/src/model.rs state the compact protocol correctly",
    "a seeded search samples schedules and faults; it does not enumerate them",
];

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        title: "round trips under every legal delivery",
        run: delivery::c01,
        quick: 240_000,
        thorough_factor: 40,
        rule: "One run writes 1 to 4 generated values of declared types back to back to a sink and reads them back from a source, both splitting and interrupting calls at random. Non-trivial: more than 8 value nodes in total.",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
        expects: &["fault.short_read", "fault.interrupted_read", "fault.short_write", "fault.interrupted_write", "probe.long_field_id", "probe.list_of_15_or_more", "probe.message_over_64k"],
        findings: &[],
    },
    Prop {
        id: "C02",
        title: "sinks receive exactly the compact protocol encoding",
        run: delivery::c02,
        quick: 300_000,
        thorough_factor: 40,
        rule: "One run writes 1 to 3 generated values to a splitting and interrupting sink and compares the accepted bytes with the reference encoder. Non-trivial: more than 8 value nodes.",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
        expects: &["fault.short_write", "fault.interrupted_write", "probe.long_field_id", "probe.list_of_15_or_more"],
        findings: &[("set-tag", delivery::finding_set)],
    },
    Prop {
        id: "C03",
        title: "failing sinks are reported and hold a prefix",
        run: faults::c03,
        quick: 80_000,
        thorough_factor: 40,
        rule: "One run writes a value to a healthy sink and then to sinks failing at every byte (messages up to 40 bytes) or at 12 chosen bytes. Non-trivial: at least one fault fired inside the message.",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
        expects: &["fault.write_error", "fault.write_zero", "fault.sink_full", "fault.short_write", "fault.interrupted_write"],
        findings: &[],
    },
    Prop {
        id: "C04",
        title: "reading depends only on the bytes",
        run: delivery::c04,
        quick: 200_000,
        thorough_factor: 40,
        rule: "One run encodes a value in a random legal encoding with unknown and reordered fields, in half of the runs corrupts the bytes, and reads or skips them from memory and from two streams. Non-trivial: more than 8 bytes.",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
        expects: &["probe.alternative_encoding", "fault.bit_flip", "fault.truncated", "fault.hostile_length", "fault.invalid_text", "probe.corrupted_still_decodes", "probe.rejected"],
        findings: &[],
    },
    Prop {
        id: "C05",
        title: "torn messages and failing sources are reported",
        run: faults::c05,
        quick: 120_000,
        thorough_factor: 40,
        rule: "One run cuts a message at every byte (up to 40 bytes) or at 12 chosen bytes, reads or skips it from memory and from streams that end or fail there, and retries on the recovered source. Non-trivial: a fault fired inside the message.",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
        expects: &["fault.read_error", "fault.premature_eof", "fault.short_read", "fault.interrupted_read", "probe.retry_after_failure"],
        findings: &[],
    },
    Prop {
        id: "C06",
        title: "hostile bytes cannot crash, hang or overread",
        run: hostile::c06,
        quick: 1_500_000,
        thorough_factor: 40,
        rule: "One run feeds corrupted or synthetic hostile bytes to every kind of source on a 2 MiB stack, memory sources ending at an unmapped page. Non-trivial: at least 4 bytes.",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
        expects: &["fault.bit_flip", "fault.range_overwritten", "fault.range_lost", "fault.range_duplicated", "fault.ranges_swapped", "fault.bytes_inserted", "fault.truncated", "fault.nesting_bomb", "fault.hostile_length", "fault.invalid_text"],
        findings: &[("typed-recursion", hostile::finding_typed_recursion)],
    },
    Prop {
        id: "C07",
        title: "length limits and failed list allocations",
        run: limits::c07,
        quick: 12_000,
        thorough_factor: 30,
        rule: "One run places a length at or beyond a limit in one position for one way of reading, skipping or writing, or refuses list allocations above a budget. Every run is non-trivial.",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
        expects: &["fault.allocation_refused", "probe.length_limit_reached", "probe.length_limit_exceeded", "probe.retry_after_failure"],
        findings: &[],
    },
    Prop {
        id: "C08",
        title: "messages are consumed exactly, without reading ahead",
        run: sessions::c08,
        quick: 9_000,
        thorough_factor: 40,
        rule: "One run is a conversation of two parties over a simulated connection with segmentation, latency, stalls and virtual time, under a random schedule; plus direct reads that record every requested byte. Non-trivial: at least one message and one context switch.",
        real: REAL,
        stub: "the connection (segments, latencies, stalls, resets, virtual clock), the thread scheduler, sources and sinks",
        assumptions: ASSUME,
        expects: &["sched.context_switch", "sched.segment_delivered", "fault.link_stall", "fault.connection_reset"],
        findings: &[],
    },
    Prop {
        id: "C09",
        title: "unknown fields are skipped without a trace",
        run: fields::c09,
        quick: 300_000,
        thorough_factor: 40,
        rule: "One run inserts unknown fields of all wire types at random places of all nesting levels, or skips a complete random value, from memory with 0 to 40 bytes behind it and from a stream. Non-trivial: at least one unknown field or a skip of more than 2 bytes.",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
        expects: &["probe.unknown_field", "fault.short_read", "fault.interrupted_read"],
        findings: &[],
    },
    Prop {
        id: "C10",
        title: "lost, repeated, reordered and retyped fields",
        run: fields::c10,
        quick: 360_000,
        thorough_factor: 40,
        rule: "One run applies field loss, repetition, reordering, retyping and union corruption to a message at random nesting levels and reads it from memory and a stream. Non-trivial: at least one such fault.",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
        expects: &["fault.field_lost", "fault.field_duplicated", "fault.field_reordered", "fault.field_retyped", "fault.union_corrupted"],
        findings: &[],
    },
    Prop {
        id: "C11",
        title: "footer retrieval is consistent",
        run: file::c11,
        quick: 1_200_000,
        thorough_factor: 40,
        rule: "One run retrieves the footer of a simulated file while a writer appends or truncates between I/O calls, or from a crash state of a disk that tears and loses sectors, or with I/O and footer faults. Non-trivial: a fault or concurrent change happened.",
        real: "compact-thrift-parquet get_metadata_chunk and FileMetaData decoding as built from /repo",
        stub: "the file (Read + Seek over simulated sectors with a concurrent writer, crashes, short reads, interruptions, read and seek errors), the allocator",
        assumptions: ASSUME,
        expects: &["fault.concurrent_append", "fault.concurrent_truncate", "fault.torn_sector", "fault.lost_sector", "fault.writer_crash", "fault.footer_corrupted", "fault.seek_error", "fault.read_error", "fault.short_read", "probe.footer_found", "probe.footer_rejected", "probe.footer_changed_during_call", "probe.position_beyond_2g"],
        findings: &[],
    },
    Prop {
        id: "C12",
        title: "page indexes are complete and correct or an error",
        run: file::c12,
        quick: 800_000,
        thorough_factor: 40,
        rule: "One run builds a file with page indexes in random layout, optionally corrupts locations, index bytes, the file length or the I/O, and runs the retrieval pipeline. Non-trivial: at least one column with an index location.",
        real: "compact-thrift-parquet get_page_index_range, get_page_index_chunk and read_page_index as built from /repo",
        stub: "the file (Read + Seek with short reads, interruptions, read and seek errors, truncation between steps), the allocator",
        assumptions: ASSUME,
        expects: &["fault.index_location_corrupted", "fault.index_bytes_corrupted", "fault.concurrent_truncate", "fault.seek_error", "fault.read_error", "probe.page_index_read", "probe.page_index_rejected", "probe.no_page_index", "probe.position_beyond_2g"],
        findings: &[],
    },
    Prop {
        id: "C13",
        title: "concurrent and nested sessions are independent",
        run: sessions::c13,
        quick: 48_000,
        thorough_factor: 40,
        rule: "One run performs 2 to 6 sessions alone, then interleaved on threads or nested in each other's I/O calls under a random schedule, some of them failing or abandoned, and compares. Non-trivial: at least two context switches or one nested session.",
        real: REAL,
        stub: "the thread scheduler (one thread runs at a time, the seed decides at every I/O call or access), sources and sinks",
        assumptions: ASSUME,
        expects: &["sched.context_switch", "sched.nested_session", "fault.session_abandoned", "fault.read_error", "fault.write_error"],
        findings: &[],
    },
    Prop {
        id: "C14",
        title: "failures leak nothing and can be retried",
        run: owners::c14,
        quick: 240_000,
        thorough_factor: 40,
        rule: "One run reads and writes under failures (cut, error, panic of the stream, corrupted bytes) while the allocator counts, or retries reads into a reused list, string or binary. Non-trivial: at least one failure happened.",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
        expects: &["fault.read_error", "fault.source_panic", "fault.sink_panic", "fault.write_error", "probe.retry_after_failure"],
        findings: &[],
    },
    Prop {
        id: "C15",
        title: "a decode never changes shared data",
        run: owners::c15,
        quick: 2_000_000,
        thorough_factor: 40,
        rule: "One run reads a message into a destination whose reference-counted parts have other owners, who look at their data at every I/O call and may let go. Non-trivial: at least one part was shared.",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
        expects: &["probe.shared_while_filled", "probe.unshared_when_filled", "sched.owner_dropped_during_read", "fault.read_error"],
        findings: &[],
    },
];

/// a type and a value of it
pub fn case(t: &mut Tape) -> (TypeOps, Value) {
    let ops = registry().pick(t);
    let sz = Sizes::draw(t);
    let v = model::gen(t, (ops.desc)(), &sz);
    (ops, v)
}
/// the same, rarely with strings beyond a megabyte
pub fn case_huge(t: &mut Tape, den: u64) -> (TypeOps, Value) {
    let ops = registry().pick(t);
    let sz = Sizes { huge: !model::small() && t.chance(1, den), ..Sizes::draw(t) };
    let v = model::gen(t, (ops.desc)(), &sz);
    (ops, v)
}
pub fn struct_case(t: &mut Tape, sz: &Sizes) -> (TypeOps, Value) {
    let ops = registry().pick_struct(t);
    let v = model::gen(t, (ops.desc)(), sz);
    (ops, v)
}

/// visit every node of a wire tree together with its description, parents first
pub fn visit(d: Desc, w: &mut W, f: &mut dyn FnMut(Desc, &mut W)) {
    f(d, w);
    match (d, w) {
        (Desc::List(e) | Desc::Set(e), W::List { elem, items, .. }) => {
            let e = e();
            if *elem == e.wire_type() {
                for i in items {
                    visit(e, i, f);
                }
            }
        }
        (Desc::Struct(s), W::Struct(ws)) => {
            let s = s();
            for (id, v) in &mut ws.fields {
                if let Some(fd) = s.fields.iter().find(|f| f.id == *id) {
                    let fd = (fd.desc)();
                    if v.wire_type() == fd.wire_type() {
                        visit(fd, v, f);
                    }
                }
            }
        }
        _ => {}
    }
}

/// a chain of nested values
pub fn deep(t: &mut Tape, depth: u64) -> W {
    let mut w = W::Struct(WStruct::default());
    // of one kind only, or mixed
    let only = if t.chance(1, 2) { Some(t.below(5)) } else { None };
    for _ in 0..depth {
        w = match only.unwrap_or_else(|| t.below(5)) {
            0 => W::Struct(WStruct { fields: vec![(1, w)], no_stop: false }),
            1 => W::List { tag: 9, elem: w.wire_type(), items: vec![w] },
            2 => W::Map { kt: 3, vt: w.wire_type(), entries: vec![(W::Byte(1), w)] },
            3 => W::Map { kt: w.wire_type(), vt: 1, entries: vec![(w, W::Bool(true))] },
            _ => W::Struct(WStruct { fields: vec![(3, W::Bin(b"xy".to_vec())), (5, w), (6, W::Bool(false))], no_stop: false }),
        };
    }
    w
}

/// insert up to `max` fields that the schema does not know
pub fn add_unknown(t: &mut Tape, d: Desc, w: &mut W, max: u64) -> usize {
    let mut structs = 0_usize;
    visit(d, w, &mut |d, w| {
        if let (Desc::Struct(s), W::Struct(_)) = (d, w) {
            structs += !s().union as usize;
        }
    });
    if structs == 0 {
        return 0;
    }
    let many = max > 1 && !model::small() && t.chance(1, 200);
    let n = if many { *t.pick(&[40, 130, 257, 300]) } else { 1 + t.below(max) };
    let crowded = t.chance(1, 2);
    for _ in 0..n {
        let target = if (many && crowded) || t.chance(1, 2) { 0 } else { t.idx(structs) };
        let ty = if many { *t.pick(&[2, 5, 3, 1]) } else { *t.pick(&[5, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 1]) };
        let value = if t.chance(1, 40) {
            let depth = t.range(6, 44);
            deep(t, depth)
        } else {
            model::gen_wire(t, ty, 1)
        };
        // among the known ids, in reach of them by a short header (from below zero, too), anywhere
        let (style, offset) = (t.weighted(&[5, 4, 2, 2]), t.word());
        let place = t.below(1 << 16) as usize;
        let mut k = 0;
        let mut value = Some(value);
        visit(d, w, &mut |d, w| {
            let (Desc::Struct(s), W::Struct(ws)) = (d, w) else { return };
            let s = s();
            if s.union {
                return;
            }
            if k == target {
                if let Some(v) = value.take() {
                    let mut id = match style {
                        0 => 1 + (offset % 60) as i16,
                        1 => -1 - (offset % 15) as i16,
                        2 => {
                            let near = if s.fields.is_empty() { 0 } else { s.fields[(offset >> 8) as usize % s.fields.len()].id };
                            near.wrapping_sub(17).wrapping_add((offset & 0xFF) as i16 % 35)
                        }
                        _ => offset as i16,
                    };
                    while s.fields.iter().any(|f| f.id == id) {
                        id = id.wrapping_add(1);
                    }
                    let at = if place % 3 == 0 { ws.fields.len() } else { place % (ws.fields.len() + 1) };
                    ws.fields.insert(at, (id, v));
                    ctx::count(ctx::C::UnknownField);
                }
            }
            k += 1;
        });
    }
    n as usize
}

/// make one string of the message invalid UTF-8, sometimes after making it ASCII
pub fn invalid_text(t: &mut Tape, d: Desc, w: &mut W) -> bool {
    let mut n = 0;
    visit(d, w, &mut |d, w| n += matches!((d, w), (Desc::Str, W::Bin(b)) if !b.is_empty()) as usize);
    if n == 0 {
        return false;
    }
    let target = t.idx(n);
    let ascii = t.chance(1, 2);
    let from_end = t.chance(1, 2);
    let place = t.below(1 << 16) as usize;
    let bad: &[u8] = *t.pick(&[
        &[0xFF][..],
        &[0x80],
        &[0xC3],
        &[0xC0, 0x80],
        &[0xE2, 0x82],
        &[0xED, 0xA0, 0x80],
        &[0xF0, 0x9F, 0x98],
        &[0xF4, 0x90, 0x80, 0x80],
        &[0xF5],
    ]);
    let mut k = 0;
    visit(d, w, &mut |d, w| {
        if let (Desc::Str, W::Bin(b)) = (d, w) {
            if b.is_empty() {
                return;
            }
            if k == target {
                if ascii {
                    b.iter_mut().for_each(|x| *x = b'!' + *x % 90);
                }
                let room = b.len();
                let at = if from_end { room - 1 - place % room.min(12) } else { place % room };
                for (i, x) in bad.iter().enumerate() {
                    match b.get_mut(at + i) {
                        Some(y) => *y = *x,
                        None => break,
                    }
                }
            }
            k += 1;
        }
    });
    ctx::count(ctx::C::BadText);
    true
}

pub fn shuffle(t: &mut Tape, s: &mut WStruct) {
    for i in (1..s.fields.len()).rev() {
        let j = t.idx(i + 1);
        // 0 on the tape keeps the order
        s.fields.swap(i, i - j.min(i));
    }
}

pub fn encoded(w: &W, alt: &mut Alt) -> Vec<u8> {
    let mut b = Vec::new();
    model::encode(w, alt, &mut b);
    b
}

/// note what kinds of encodings a canonical message contains
pub fn note_shape(d: Desc, v: &Value, len: usize) {
    if len > 65_536 {
        ctx::count(ctx::C::BigMessage);
    }
    fn walk(d: Desc, v: &Value) -> (bool, bool) {
        match (d, v) {
            (Desc::List(e) | Desc::Set(e), Value::List(l)) => {
                let mut r = (false, l.len() >= 15);
                for v in l.iter().take(20) {
                    let x = walk(e(), v);
                    r = (r.0 | x.0, r.1 | x.1);
                }
                r
            }
            (Desc::Struct(s), Value::Struct(f)) => {
                let s = s();
                let mut last = 0;
                let mut r = (false, false);
                for (fd, v) in s.fields.iter().zip(f) {
                    if let Some(v) = v {
                        let delta = fd.id as i32 - last;
                        last = fd.id as i32;
                        let x = walk((fd.desc)(), v);
                        r = (r.0 | x.0 | !(1..=15).contains(&delta), r.1 | x.1);
                    }
                }
                r
            }
            (Desc::Struct(s), Value::Union(i, v)) => walk((s().fields[*i].desc)(), v),
            _ => (false, false),
        }
    }
    let (long_id, long_list) = walk(d, v);
    if long_id {
        ctx::count(ctx::C::LongId);
    }
    if long_list {
        ctx::count(ctx::C::LongList);
    }
}

pub fn cut_points(t: &mut Tape, len: usize, all_below: usize, some: usize) -> Vec<usize> {
    if len == 0 {
        return vec![];
    }
    if len <= all_below {
        return (0..len).collect();
    }
    let mut v = vec![len - 1, 0];
    for _ in 2..some {
        v.push(match t.weighted(&[3, 2, 1]) {
            0 => t.idx(len),
            1 => len - 1 - t.idx(len.min(24)),
            _ => t.idx(len.min(24)),
        });
    }
    v.sort_unstable();
    v.dedup();
    v
}
