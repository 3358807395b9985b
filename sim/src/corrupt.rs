//! Faults in stored or transmitted bytes.

use crate::ctx::{self, count, C};
use crate::tape::Tape;

fn span(t: &mut Tape, len: usize) -> (usize, usize) {
    let at = t.idx(len.max(1));
    let max = (len - at.min(len)).max(1);
    let n = match t.weighted(&[4, 2, 1]) {
        0 => 1,
        1 => 1 + t.idx(8),
        _ => 1 + t.idx(64),
    };
    (at, n.min(max))
}

fn varint(mut v: u64, pad: usize) -> Vec<u8> {
    let mut o = Vec::new();
    while v > 0x7f {
        o.push(v as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
    if pad > 0 {
        *o.last_mut().unwrap() |= 0x80;
        o.extend(std::iter::repeat_n(0x80, pad - 1));
        o.push(0);
    }
    o
}

const LENGTHS: &[u64] = &[
    0,
    1,
    14,
    15,
    16,
    127,
    128,
    1000,
    65535,
    1 << 20,
    9_999_999,
    10_000_000,
    10_000_001,
    (1 << 24) - 1,
    1 << 24,
    (1 << 24) + 1,
    (1 << 31) - 1,
    1 << 31,
    (1 << 32) - 1,
    1 << 32,
    (1 << 32) + 3,
    (1 << 32) + 10_000_000,
    (1 << 63) - 1,
    1 << 63,
    u64::MAX - 1,
    u64::MAX,
];

/// apply one fault; returns its name
pub fn corrupt(t: &mut Tape, b: &mut Vec<u8>) -> &'static str {
    let kind = t.weighted(&[5, 4, 3, 2, 2, 3, 3, 3, 1]);
    if b.is_empty() {
        count(C::InsertRange);
        b.push(t.below(256) as u8);
        return "inserted";
    }
    match kind {
        0 => {
            count(C::BitFlip);
            let i = t.idx(b.len());
            b[i] ^= 1 << t.below(8);
            "bit flip"
        }
        1 => {
            count(C::Overwrite);
            let (at, n) = span(t, b.len());
            let style = t.below(5);
            for x in &mut b[at..at + n] {
                *x = match style {
                    0 => 0,
                    1 => 0xFF,
                    2 => 0x80,
                    3 => *t.pick(&[0x0c, 0x1c, 0x19, 0x1b, 0xfc, 0xf9, 0x9c, 0x00, 0x15, 0x16, 0x18, 0x11, 0x12]),
                    _ => t.below(256) as u8,
                };
            }
            "overwritten"
        }
        2 => {
            count(C::LostRange);
            let (at, n) = span(t, b.len());
            b.drain(at..at + n);
            "lost range"
        }
        3 => {
            count(C::DupRange);
            let (at, n) = span(t, b.len());
            let part = b[at..at + n].to_vec();
            b.splice(at..at, part);
            "repeated range"
        }
        4 => {
            count(C::SwapRange);
            let (a, n) = span(t, b.len());
            let (c, m) = span(t, b.len());
            let (a, n, c, m) = if a <= c { (a, n, c, m) } else { (c, m, a, n) };
            if a + n <= c {
                let x = b[a..a + n].to_vec();
                let y = b[c..c + m].to_vec();
                b.splice(c..c + m, x);
                b.splice(a..a + n, y);
            } else {
                b[a] = b[a].rotate_left(4);
            }
            "swapped ranges"
        }
        5 => {
            count(C::Truncated);
            let at = t.idx(b.len());
            b.truncate(at);
            "truncated"
        }
        6 => {
            count(C::InsertRange);
            let at = t.idx(b.len() + 1);
            let style = t.below(4);
            let n = match t.weighted(&[3, 2, 1]) {
                0 => 1 + t.idx(3),
                1 => 1 + t.idx(20),
                _ => *t.pick(&[9, 10, 11, 15, 16, 17, 18, 32, 100]),
            };
            let part: Vec<u8> = (0..n)
                .map(|_| match style {
                    0 => 0x80 | t.below(128) as u8,
                    1 => 0xFF,
                    2 => 0,
                    _ => t.below(256) as u8,
                })
                .collect();
            b.splice(at..at, part);
            "inserted"
        }
        7 => {
            count(C::LenClaim);
            // an extreme length somewhere, possibly behind a list or binary header
            let at = t.idx(b.len());
            let pad = if t.chance(1, 6) { 1 + t.idx(12) } else { 0 };
            let mut part = match t.below(4) {
                0 => vec![],
                1 => vec![0xF0 | t.below(16) as u8],
                2 => vec![0x18],
                _ => vec![0x1b],
            };
            part.extend(varint(*t.pick(LENGTHS), pad));
            let end = (at + t.idx(part.len() + 1)).min(b.len());
            b.splice(at..end, part);
            "hostile length"
        }
        _ => {
            count(C::Bomb);
            let at = t.idx(b.len());
            let depths: &[usize] = if crate::model::small() { &[10, 63, 64, 65, 66, 100] } else { &[10, 63, 64, 65, 66, 500, 5000, 100_000, 600_000] };
            let depth = *t.pick(depths);
            let unit: &[u8] = match t.below(6) {
                0 => &[0x19],       // list of one list (inside a collection)
                1 => &[0x1c],       // struct in struct
                2 => &[0x1b],       // map field / odd
                3 => &[0x01, 0xbb], // map of maps
                4 => &[0x1a],
                _ => &[0x19, 0x1c], // list of structs
            };
            let lead: &[u8] = match t.below(4) {
                0 => &[0x0c, 0xfe, 0x01], // unknown field, struct, id 127
                1 => &[0x09, 0xfe, 0x01],
                2 => &[0x0b, 0xfe, 0x01],
                _ => &[],
            };
            let mut part = lead.to_vec();
            for _ in 0..depth {
                part.extend_from_slice(unit);
            }
            if t.chance(1, 2) {
                b.truncate(at);
                b.extend(part);
            } else {
                b.splice(at..at, part);
            }
            "nesting bomb"
        }
    }
}

/// several faults, as if a message had been stored badly
pub fn corrupt_some(t: &mut Tape, b: &mut Vec<u8>) -> Vec<&'static str> {
    let n = 1 + t.weighted(&[6, 3, 1]);
    (0..n).map(|_| corrupt(t, b)).collect()
}

pub fn varint_bytes(v: u64) -> Vec<u8> {
    varint(v, 0)
}

pub fn note(names: &[&str]) -> String {
    let _ = ctx::is_trivial();
    names.join(", ")
}
