//! Reference model, written from the compact protocol specification and independent of the
//! code under test: values, type descriptions, wire trees, encoder and decoder.

use crate::tape::{Prng, Tape};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub const MAX_BIN: u64 = 16 * 1024 * 1024;
pub const MAX_COLL: u64 = 10_000_000;

#[derive(Clone, Copy)]
pub enum Desc {
    Bool,
    I8,
    I16,
    I32,
    I64,
    F64,
    Bin,
    Str,
    List(fn() -> Desc),
    #[allow(dead_code)]
    Set(fn() -> Desc),
    Struct(fn() -> &'static StructDesc),
    /// set of small enum values stored as a list of i32
    EncSet,
}

pub struct FieldDesc {
    pub id: i16,
    pub name: &'static str,
    pub required: bool,
    pub desc: fn() -> Desc,
}

pub struct StructDesc {
    pub name: &'static str,
    pub union: bool,
    pub fields: Vec<FieldDesc>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Bool(bool),
    Int(i64),
    /// by bits, so NaNs compare
    F64(u64),
    Bytes(Vec<u8>),
    List(Vec<Value>),
    Struct(Vec<Option<Value>>),
    Union(usize, Box<Value>),
}

impl Value {
    pub fn brief(&self) -> String {
        let s = format!("{self:?}");
        brief(&s, 400)
    }
    /// about the number of bytes it encodes to
    pub fn weight(&self) -> usize {
        3 + match self {
            Value::List(l) => l.iter().map(Value::weight).sum(),
            Value::Struct(f) => f.iter().flatten().map(Value::weight).sum(),
            Value::Union(_, v) => v.weight(),
            Value::Bytes(b) => b.len(),
            _ => 3,
        }
    }
    /// number of nodes, a measure for triviality
    pub fn nodes(&self) -> usize {
        1 + match self {
            Value::List(l) => l.iter().map(Value::nodes).sum(),
            Value::Struct(f) => f.iter().flatten().map(Value::nodes).sum(),
            Value::Union(_, v) => v.nodes(),
            _ => 0,
        }
    }
}

pub fn brief(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...({} bytes)", &s[..e], s.len())
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(160) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 160 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

impl Desc {
    pub fn wire_type(&self) -> u8 {
        match self {
            Desc::Bool => 2,
            Desc::I8 => 3,
            Desc::I16 => 4,
            Desc::I32 => 5,
            Desc::I64 => 6,
            Desc::F64 => 7,
            Desc::Bin | Desc::Str => 8,
            Desc::List(_) | Desc::EncSet => 9,
            Desc::Set(_) => 10,
            Desc::Struct(_) => 12,
        }
    }
}

// ---------------------------------------------------------------------------------------
// wire trees

#[derive(Clone, Debug, PartialEq)]
pub enum W {
    Bool(bool),
    Byte(i8),
    /// wire type 4, 5 or 6
    Int(u8, i64),
    F64(u64),
    Bin(Vec<u8>),
    /// wire type 9 or 10
    List { tag: u8, elem: u8, items: Vec<W> },
    Map { kt: u8, vt: u8, entries: Vec<(W, W)> },
    Struct(WStruct),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct WStruct {
    pub fields: Vec<(i16, W)>,
    /// bytes written instead of the stop byte
    pub no_stop: bool,
}

impl W {
    pub fn wire_type(&self) -> u8 {
        match self {
            W::Bool(_) => 2,
            W::Byte(_) => 3,
            W::Int(t, _) => *t,
            W::F64(_) => 7,
            W::Bin(_) => 8,
            W::List { tag, .. } => *tag,
            W::Map { .. } => 11,
            W::Struct(_) => 12,
        }
    }
}

pub fn to_wire(d: Desc, v: &Value) -> W {
    match (d, v) {
        (Desc::Bool, Value::Bool(b)) => W::Bool(*b),
        (Desc::I8, Value::Int(i)) => W::Byte(*i as i8),
        (Desc::I16 | Desc::I32 | Desc::I64, Value::Int(i)) => W::Int(d.wire_type(), *i),
        (Desc::F64, Value::F64(b)) => W::F64(*b),
        (Desc::Bin | Desc::Str, Value::Bytes(b)) => W::Bin(b.clone()),
        (Desc::List(e), Value::List(items)) => {
            let e = e();
            W::List { tag: 9, elem: e.wire_type(), items: items.iter().map(|v| to_wire(e, v)).collect() }
        }
        (Desc::Set(e), Value::List(items)) => {
            let e = e();
            W::List { tag: 10, elem: e.wire_type(), items: items.iter().map(|v| to_wire(e, v)).collect() }
        }
        (Desc::EncSet, Value::List(items)) => {
            W::List { tag: 9, elem: 5, items: items.iter().map(|v| to_wire(Desc::I32, v)).collect() }
        }
        (Desc::Struct(s), Value::Struct(fields)) => {
            let s = s();
            let mut out = WStruct::default();
            for (f, v) in s.fields.iter().zip(fields) {
                if let Some(v) = v {
                    out.fields.push((f.id, to_wire((f.desc)(), v)));
                }
            }
            W::Struct(out)
        }
        (Desc::Struct(s), Value::Union(i, v)) => {
            let s = s();
            let f = &s.fields[*i];
            W::Struct(WStruct { fields: vec![(f.id, to_wire((f.desc)(), v))], no_stop: false })
        }
        _ => panic!("harness: value {v:?} does not fit the description"),
    }
}

// ---------------------------------------------------------------------------------------
// encoder

/// the longest zero-padded integer whose value is specified
const LONGEST: usize = 18;

/// Alternative legal encodings, per mille. All zero is the canonical encoding.
#[derive(Clone)]
pub struct Alt {
    pub long_id: u64,
    pub long_list: u64,
    pub bool_tag1: u64,
    pub bool_zero: u64,
    pub pad: u64,
    pub rng: Prng,
}

impl Alt {
    pub fn canonical() -> Self {
        Alt { long_id: 0, long_list: 0, bool_tag1: 0, bool_zero: 0, pad: 0, rng: Prng::new(0) }
    }
    pub fn draw(t: &mut Tape) -> Self {
        const RATES: [u64; 4] = [0, 100, 500, 1000];
        Alt {
            long_id: *t.pick(&RATES),
            long_list: *t.pick(&RATES),
            bool_tag1: *t.pick(&RATES),
            bool_zero: *t.pick(&RATES),
            pad: *t.pick(&[0, 0, 50, 300]),
            rng: Prng::new(t.word()),
        }
    }
    fn hit(&mut self, rate: u64) -> bool {
        rate != 0 && self.rng.below(1000) < rate
    }
}

pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v > 0x7F {
        out.push((v as u8 & 0x7F) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

fn put_varint_alt(out: &mut Vec<u8>, v: u64, alt: &mut Alt) {
    let start = out.len();
    put_varint(out, v);
    if alt.hit(alt.pad) {
        let len = out.len() - start;
        // ten bytes are enough for 64 bits, longer ones are documented not to be an error
        let max = if alt.rng.below(6) == 0 { LONGEST } else { 10 };
        if len < max {
            let extra = 1 + alt.rng.below((max - len) as u64) as usize;
            *out.last_mut().unwrap() |= 0x80;
            for _ in 1..extra {
                out.push(0x80);
            }
            out.push(0);
        }
    }
}

pub fn zigzag(v: i64) -> u64 {
    // (spec) maps 0, -1, 1, -2 ... to 0, 1, 2, 3 ...
    if v >= 0 {
        (v as u64) * 2
    } else {
        (-(v + 1)) as u64 * 2 + 1
    }
}

pub fn unzigzag(u: u64) -> i64 {
    if u % 2 == 0 {
        (u / 2) as i64
    } else {
        -((u / 2) as i64) - 1
    }
}

pub fn encode(w: &W, alt: &mut Alt, out: &mut Vec<u8>) {
    match w {
        W::Bool(b) => out.push(if *b {
            1
        } else if alt.hit(alt.bool_zero) {
            0
        } else {
            2
        }),
        W::Byte(b) => out.push(*b as u8),
        W::Int(_, v) => put_varint_alt(out, zigzag(*v), alt),
        W::F64(bits) => out.extend_from_slice(&bits.to_le_bytes()),
        W::Bin(b) => {
            put_varint_alt(out, b.len() as u64, alt);
            out.extend_from_slice(b);
        }
        W::List { elem, items, .. } => {
            let elem = if *elem == 2 && alt.hit(alt.bool_tag1) { 1 } else { *elem };
            if items.len() < 15 && !alt.hit(alt.long_list) {
                out.push(((items.len() as u8) << 4) | elem);
            } else {
                out.push(0xF0 | elem);
                put_varint_alt(out, items.len() as u64, alt);
            }
            for i in items {
                encode(i, alt, out);
            }
        }
        W::Map { kt, vt, entries } => {
            put_varint_alt(out, entries.len() as u64, alt);
            if !entries.is_empty() {
                out.push((kt << 4) | vt);
                for (k, v) in entries {
                    encode(k, alt, out);
                    encode(v, alt, out);
                }
            }
        }
        W::Struct(s) => {
            let mut last = 0_i32;
            for (id, v) in &s.fields {
                let ty = match v {
                    W::Bool(true) => 1,
                    W::Bool(false) => 2,
                    other => other.wire_type(),
                };
                let delta = *id as i32 - last;
                if (1..=15).contains(&delta) && !alt.hit(alt.long_id) {
                    out.push(((delta as u8) << 4) | ty);
                } else {
                    out.push(ty);
                    put_varint_alt(out, zigzag(*id as i64), alt);
                }
                last = *id as i32;
                if !matches!(v, W::Bool(_)) {
                    encode(v, alt, out);
                }
            }
            if !s.no_stop {
                out.push(0);
            }
        }
    }
}

pub fn encode_canonical(d: Desc, v: &Value) -> Vec<u8> {
    let mut out = Vec::new();
    encode(&to_wire(d, v), &mut Alt::canonical(), &mut out);
    out
}

// ---------------------------------------------------------------------------------------
// decoder

pub struct Decoded {
    pub result: Result<Value, String>,
    pub consumed: usize,
    /// the specification leaves the outcome open (for example over-long integers)
    pub unspecified: bool,
}

struct Dec<'a> {
    b: &'a [u8],
    pos: usize,
    open: bool,
}

pub fn decode(d: Desc, bytes: &[u8]) -> Decoded {
    let mut dec = Dec { b: bytes, pos: 0, open: false };
    let result = dec.value(d);
    Decoded { result, consumed: dec.pos, unspecified: dec.open }
}

/// reference for skipping a complete value of a wire type
pub fn skip(ty: u8, bytes: &[u8]) -> Decoded {
    let mut dec = Dec { b: bytes, pos: 0, open: false };
    let result = dec.skip(ty, false, 0).map(|_| Value::Bool(true));
    Decoded { result, consumed: dec.pos, unspecified: dec.open }
}

impl Dec<'_> {
    fn byte(&mut self) -> Result<u8, String> {
        let b = *self.b.get(self.pos).ok_or("eof")?;
        self.pos += 1;
        Ok(b)
    }
    fn take(&mut self, n: usize) -> Result<&[u8], String> {
        if self.b.len() - self.pos < n {
            self.pos = self.b.len();
            return Err("eof".into());
        }
        self.pos += n;
        Ok(&self.b[self.pos - n..self.pos])
    }
    fn varint(&mut self) -> Result<u64, String> {
        let mut v: u128 = 0;
        let mut n = 0;
        loop {
            let b = self.byte()?;
            if n < LONGEST {
                v |= ((b & 0x7F) as u128) << (7 * n);
            }
            n += 1;
            if b & 0x80 == 0 {
                break;
            }
        }
        if n > LONGEST || v > u64::MAX as u128 {
            self.open = true;
        }
        Ok(v as u64)
    }
    fn int(&mut self, bits: u32) -> Result<i64, String> {
        let u = self.varint()?;
        if bits < 64 && u >> bits != 0 {
            self.open = true;
        }
        Ok(unzigzag(u))
    }
    fn bin(&mut self) -> Result<&[u8], String> {
        let n = self.varint()?;
        if n > MAX_BIN {
            return Err("binary length".into());
        }
        self.take(n as usize)
    }
    fn list_header(&mut self) -> Result<(u64, u8), String> {
        let h = self.byte()?;
        let mut n = (h >> 4) as u64;
        if n == 15 {
            n = self.varint()?;
        }
        if n > MAX_COLL {
            return Err("collection length".into());
        }
        Ok((n, h & 15))
    }
    fn field(&mut self, last: &mut i32) -> Result<Option<u8>, String> {
        let h = self.byte()?;
        if h == 0 {
            return Ok(None);
        }
        let delta = (h >> 4) as i32;
        if delta == 0 {
            let u = self.varint()?;
            if u > 0xFFFF {
                self.open = true;
            }
            *last = unzigzag(u & 0xFFFF) as i32;
        } else {
            *last += delta;
            if *last > i16::MAX as i32 {
                self.open = true;
                return Err("field id".into());
            }
        }
        if h & 15 == 0 {
            // a stop byte with an id: not in the specification
            self.open = true;
            return Ok(None);
        }
        Ok(Some(h & 15))
    }
    fn skip(&mut self, ty: u8, in_coll: bool, depth: u32) -> Result<(), String> {
        if depth > 48 {
            // an implementation may limit the nesting of what it skips
            self.open = true;
        }
        if depth > 70 {
            return Err("depth".into());
        }
        match ty {
            1 | 2 => {
                if in_coll {
                    self.byte()?;
                }
            }
            3 => {
                self.byte()?;
            }
            4..=6 => {
                // the value is irrelevant when skipping, over-long or not
                while self.byte()? & 0x80 != 0 {}
            }
            7 => {
                self.take(8)?;
            }
            8 => {
                self.bin()?;
            }
            9 | 10 => {
                let (n, e) = self.list_header()?;
                if n == 0 && !(1..=12).contains(&e) {
                    self.open = true;
                    return Err("type".into());
                }
                if !(1..=12).contains(&e) {
                    return Err("type".into());
                }
                for _ in 0..n {
                    self.skip(e, true, depth + 1)?;
                }
            }
            11 => {
                let n = self.varint()?;
                if n > 0 {
                    let t = self.byte()?;
                    if n > MAX_COLL {
                        return Err("collection length".into());
                    }
                    for _ in 0..n {
                        self.skip(t >> 4, true, depth + 1)?;
                        self.skip(t & 15, true, depth + 1)?;
                    }
                }
            }
            12 => {
                let mut last = 0;
                while let Some(t) = self.field(&mut last)? {
                    self.skip(t, false, depth + 1)?;
                }
            }
            _ => return Err("type".into()),
        }
        Ok(())
    }

    fn value(&mut self, d: Desc) -> Result<Value, String> {
        Ok(match d {
            Desc::Bool => {
                let b = self.byte()?;
                if b > 2 {
                    self.open = true;
                }
                Value::Bool(b == 1)
            }
            Desc::I8 => Value::Int(self.byte()? as i8 as i64),
            Desc::I16 => Value::Int(self.int(16)?),
            Desc::I32 => Value::Int(self.int(32)?),
            Desc::I64 => Value::Int(self.int(64)?),
            Desc::F64 => Value::F64(u64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            Desc::Bin => Value::Bytes(self.bin()?.to_vec()),
            Desc::Str => {
                let b = self.bin()?.to_vec();
                if std::str::from_utf8(&b).is_err() {
                    return Err("utf8".into());
                }
                Value::Bytes(b)
            }
            Desc::List(e) | Desc::Set(e) => {
                let e = e();
                let (n, et) = self.list_header()?;
                if et != e.wire_type() && !(et == 1 && e.wire_type() == 2) {
                    return Err("type".into());
                }
                let mut items = Vec::new();
                for _ in 0..n {
                    items.push(self.value(e)?);
                }
                Value::List(items)
            }
            Desc::EncSet => {
                let (n, et) = self.list_header()?;
                if et != 5 {
                    return Err("type".into());
                }
                let mut mask = 0_u32;
                for _ in 0..n {
                    let v = self.int(32)?;
                    if v == 31 {
                        self.open = true;
                    }
                    if !(0..31).contains(&v) {
                        return Err("number".into());
                    }
                    mask |= 1 << v;
                }
                Value::List((0..31).filter(|i| mask >> i & 1 != 0).map(Value::Int).collect())
            }
            Desc::Struct(s) => {
                let s = s();
                if s.union {
                    return self.union(s);
                }
                let mut vals: Vec<Option<Value>> = s.fields.iter().map(|_| None).collect();
                let mut last = 0;
                while let Some(t) = self.field(&mut last)? {
                    match s.fields.iter().position(|f| f.id as i32 == last) {
                        None => self.skip(t, false, 0)?,
                        Some(i) => {
                            let f = &s.fields[i];
                            if vals[i].is_some() {
                                if !f.required {
                                    return Err("duplicate".into());
                                }
                                // repetition of a required field is not specified
                                self.open = true;
                            }
                            vals[i] = Some(self.member(f, t)?);
                        }
                    }
                }
                for (f, v) in s.fields.iter().zip(&vals) {
                    if f.required && v.is_none() {
                        return Err(format!("missing {}::{}", s.name, f.name));
                    }
                }
                Value::Struct(vals)
            }
        })
    }

    fn member(&mut self, f: &FieldDesc, t: u8) -> Result<Value, String> {
        let d = (f.desc)();
        if let Desc::Bool = d {
            return match t {
                1 => Ok(Value::Bool(true)),
                2 => Ok(Value::Bool(false)),
                _ => Err("type".into()),
            };
        }
        if t != d.wire_type() {
            return Err("type".into());
        }
        self.value(d)
    }

    fn union(&mut self, s: &StructDesc) -> Result<Value, String> {
        let mut last = 0;
        let Some(t) = self.field(&mut last)? else { return Err("empty union".into()) };
        let Some(i) = s.fields.iter().position(|f| f.id as i32 == last) else {
            return Err("unknown union member".into());
        };
        let v = self.member(&s.fields[i], t)?;
        if self.byte()? != 0 {
            return Err("union stop".into());
        }
        Ok(Value::Union(i, Box::new(v)))
    }
}

// ---------------------------------------------------------------------------------------
// generator

/// Size profile of one run, drawn once (swarm style).
pub struct Sizes {
    pub nodes: i64,
    pub long_list: u64,
    pub long_bin: u64,
    pub opt: u64,
    /// strings beyond a megabyte
    pub huge: bool,
    /// integers, strings and binaries repeat, taken from a few values derived from this; 0: no
    pub palette: u64,
    /// extra weight of strings and binaries of 60 to 400 bytes
    pub medium: u32,
}

/// values, damage and bursts are kept small where a run is interpreted
static SMALL: AtomicBool = AtomicBool::new(cfg!(miri));
pub fn set_small(on: bool) {
    SMALL.store(on, Relaxed);
}
pub fn small() -> bool {
    SMALL.load(Relaxed)
}

impl Sizes {
    pub fn draw(t: &mut Tape) -> Sizes {
        if small() {
            return Sizes { nodes: *t.pick(&[12, 12, 30]), opt: *t.pick(&[2, 1, 3]), palette: Sizes::draw_palette(t, 6), ..Sizes::small() };
        }
        let nodes = match t.weighted(&[40, 40, 15, 5]) {
            0 => 12,
            1 => 60,
            2 => 250,
            _ => 900,
        };
        Sizes {
            nodes,
            long_list: *t.pick(&[0, 1, 5]),
            long_bin: *t.pick(&[0, 1, 5]),
            opt: *t.pick(&[2, 1, 3, 0, 4]),
            huge: false,
            palette: Sizes::draw_palette(t, 6),
            medium: *t.pick(&[0, 0, 0, 12]),
        }
    }
    pub fn small() -> Sizes {
        Sizes { nodes: 12, long_list: 0, long_bin: 0, opt: 2, huge: false, palette: 0, medium: 0 }
    }
    /// one in so many
    pub fn draw_palette(t: &mut Tape, den: u64) -> u64 {
        if t.chance(1, den) {
            1 + t.below(1 << 32)
        } else {
            0
        }
    }
    /// one of the repeating values, if it is to be one
    fn repeat(&self, t: &mut Tape) -> Option<Prng> {
        (self.palette != 0 && t.chance(2, 3)).then(|| Prng::new(self.palette * 4 + t.below(3)))
    }
}

fn gen_int(t: &mut Tape, bits: u32) -> i64 {
    let (lo, hi) = if bits == 64 { (i64::MIN, i64::MAX) } else { (-(1_i64 << (bits - 1)), (1_i64 << (bits - 1)) - 1) };
    match t.weighted(&[4, 5, 2]) {
        0 => {
            let v = t.below(40) as i64;
            if v % 2 == 0 { v / 2 } else { -(v / 2) - 1 }
        }
        1 => {
            // around powers of two: every varint length and every sign boundary
            let k = t.below(bits as u64) as u32;
            let near = t.below(3) as i64 - 1;
            let base = if k == 63 { i64::MIN } else { 1_i64 << k };
            let v = base.wrapping_add(near);
            let v = if t.chance(1, 2) { v.wrapping_neg() } else { v };
            v.clamp(lo, hi)
        }
        _ => {
            let v = t.word() as i64;
            if bits == 64 { v } else { v << (64 - bits) >> (64 - bits) }
        }
    }
}

fn gen_len(t: &mut Tape, long: u64, medium: u32) -> usize {
    if small() {
        return match t.weighted(&[16, 3, 1]) {
            0 => t.below(6) as usize,
            1 => *t.pick(&[14, 15, 16, 17]),
            _ => *t.pick(&[63, 64, 127, 128, 129]),
        };
    }
    match t.weighted(&[8, 3, 2, long as u32, medium]) {
        0 => t.below(9) as usize,
        1 => *t.pick(&[13, 14, 15, 16, 17, 31, 32, 33]),
        2 => *t.pick(&[63, 64, 100, 126, 127, 128, 129, 255, 256, 257]),
        4 => t.range(60, 400) as usize,
        _ => match t.weighted(&[6, 3, 2]) {
            0 => t.range(300, 5000) as usize,
            1 => *t.pick(&[4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385]),
            _ => *t.pick(&[32768, 65535, 65536, 65537, 131_072, 200_001, 300_000]),
        },
    }
}

/// what text processing might want to treat in a special way, at the ends of some texts
fn mark(p: &mut Prng, room: usize) -> Option<char> {
    const MARKS: [char; 16] = [
        '\u{feff}', '\u{fffd}', '\u{fffe}', '\0', ' ', '\n', '\r', '\t', '\u{a0}', '\u{301}', '\u{200d}', '\u{2028}', '"', '\\',
        '\u{e000}', '\u{7f}',
    ];
    let c = MARKS[p.below(16) as usize];
    (p.below(5) == 0 && c.len_utf8() <= room).then_some(c)
}

pub fn fill_text(seed: u64, len: usize) -> Vec<u8> {
    let mut p = Prng::new(seed);
    let mode = p.below(4);
    let mut s = String::with_capacity(len + 4);
    s.extend(mark(&mut p, len));
    let tail = mark(&mut p, len - s.len());
    let end = len - tail.map_or(0, |c| c.len_utf8());
    while s.len() < end {
        let left = end - s.len();
        let c = match if mode == 0 { 0 } else { p.below(mode * 2 + 1) } {
            0 | 1 => (b' ' + p.below(95) as u8) as char,
            2 if left >= 2 => ['\u{80}', 'é', '\u{7ff}'][p.below(3) as usize],
            3 if left >= 3 => ['€', '\u{800}', '\u{ffff}', '\u{d7ff}'][p.below(4) as usize],
            4 if left >= 4 => ['\u{10000}', '😀', '\u{10ffff}'][p.below(3) as usize],
            5 => '\0',
            _ => 'x',
        };
        s.push(c);
    }
    s.extend(tail);
    s.into_bytes()
}

pub fn fill_bytes(seed: u64, len: usize) -> Vec<u8> {
    let mut p = Prng::new(seed);
    let mode = p.below(4);
    (0..len)
        .map(|_| match mode {
            0 => p.below(256) as u8,
            1 => 0,
            2 => 0x80 | p.below(128) as u8,
            _ => [0, 0xff, 0x80, 0x7f, 0x15, 0x1c][p.below(6) as usize],
        })
        .collect()
}

pub fn gen(t: &mut Tape, d: Desc, sz: &Sizes) -> Value {
    let mut budget = sz.nodes;
    gen_in(t, d, sz, &mut budget, 0)
}

fn gen_in(t: &mut Tape, d: Desc, sz: &Sizes, budget: &mut i64, depth: u32) -> Value {
    *budget -= 1;
    match d {
        Desc::Bool => Value::Bool(t.below(2) == 1),
        Desc::I8 | Desc::I16 | Desc::I32 | Desc::I64 => {
            let bits = match d {
                Desc::I8 => 8,
                Desc::I16 => 16,
                Desc::I32 => 32,
                _ => 64,
            };
            Value::Int(match sz.repeat(t) {
                Some(mut p) => {
                    let v = (p.next() | 1 << 63) >> p.below(64);
                    unzigzag(v) << (64 - bits) >> (64 - bits)
                }
                None => gen_int(t, bits),
            })
        }
        Desc::F64 => Value::F64(match t.weighted(&[3, 3]) {
            0 => t
                .pick(&[0.0, 1.0, -0.0, -1.5, f64::NAN, f64::INFINITY, f64::MIN, f64::MAX, f64::EPSILON, 5e-324])
                .to_bits(),
            _ => t.word(),
        }),
        Desc::Bin | Desc::Str => {
            let long = if *budget > 0 { sz.long_bin } else { 0 };
            if let Some(mut p) = sz.repeat(t) {
                let (len, seed) = (p.below(if sz.medium > 0 { 300 } else { 40 }) as usize, p.next());
                return Value::Bytes(if matches!(d, Desc::Str) { fill_text(seed, len) } else { fill_bytes(seed, len) });
            }
            let len = if *budget < -50 {
                t.below(4) as usize
            } else if sz.huge && *budget > 0 && t.chance(1, 3) {
                *budget = 0;
                *t.pick(&[1 << 20, (1 << 20) - 1, (1 << 20) + 1, (1 << 21) + 7, 3_000_000])
            } else {
                gen_len(t, long, if *budget > 0 { sz.medium } else { 0 })
            };
            *budget -= (len / 2000) as i64 * 4;
            let seed = if len > 0 { t.below(1 << 32) } else { 0 };
            Value::Bytes(if matches!(d, Desc::Str) { fill_text(seed, len) } else { fill_bytes(seed, len) })
        }
        Desc::List(e) | Desc::Set(e) => {
            let e = e();
            if depth > 14 || *budget < -20 {
                return Value::List(Vec::new());
            }
            let scalar = !matches!(e, Desc::Struct(_) | Desc::List(_) | Desc::Set(_));
            if scalar {
                let long = if *budget > 0 && depth < 3 { sz.long_list } else { 0 };
                let mut n = gen_len(t, long, 0);
                if matches!(e, Desc::Bin | Desc::Str) && n > 300 {
                    n = 300;
                }
                if n > 300 {
                    *budget -= 60;
                }
                *budget -= (n / 8) as i64;
                let small = Sizes { long_bin: if n > 40 { 0 } else { sz.long_bin }, long_list: 0, ..*sz };
                if n > 20 {
                    let mut sub = Tape::unrecorded(t.below(1 << 32));
                    let mut b = if n > 60 { -100 } else { 20 };
                    Value::List((0..n).map(|_| gen_in(&mut sub, e, &small, &mut b, depth + 1)).collect())
                } else {
                    Value::List((0..n).map(|_| gen_in(t, e, &small, budget, depth + 1)).collect())
                }
            } else {
                if sz.long_list > 0 && depth < 3 && *budget > 0 && t.chance(1, 60) {
                    // many copies of one small element
                    let n = *t.pick(&[200, 255, 256, 257, 1000, 4095, 4096, 5000]);
                    let one = gen_in(t, e, &Sizes { opt: 1, ..Sizes::small() }, &mut 3, depth + 2);
                    let n = (n / (1 + one.nodes() / 20)).min(100_000 / one.weight());
                    *budget -= 200;
                    return Value::List(vec![one; n]);
                }
                let n = match t.weighted(&[10, 2, 1, 1]) {
                    0 => t.below(4) as usize,
                    1 => t.range(4, 9) as usize,
                    2 => *t.pick(&[14, 15, 16]),
                    _ => {
                        if *budget > 100 {
                            *t.pick(&[17, 40, 127, 128, 129])
                        } else {
                            1
                        }
                    }
                };
                let mut items = Vec::new();
                for _ in 0..n {
                    if *budget < -40 {
                        break;
                    }
                    items.push(gen_in(t, e, sz, budget, depth + 1));
                }
                Value::List(items)
            }
        }
        Desc::EncSet => {
            let mask = match t.weighted(&[3, 1, 1]) {
                0 => (1_u64 << t.below(10)) | (1 << t.below(10)) * t.below(2),
                1 => t.below(1 << 31),
                _ => (1 << t.below(32)) - 1,
            };
            Value::List((0..31).filter(|i| mask >> i & 1 != 0).map(Value::Int).collect())
        }
        Desc::Struct(s) => {
            let s = s();
            if s.union {
                let i = t.idx(s.fields.len());
                return Value::Union(i, Box::new(gen_in(t, (s.fields[i].desc)(), sz, budget, depth + 1)));
            }
            Value::Struct(
                s.fields
                    .iter()
                    .map(|f| {
                        let present = f.required
                            || (depth < 15 && *budget > 0 && sz.opt > 0 && (sz.opt >= 4 || t.chance(sz.opt, 4)));
                        present.then(|| gen_in(t, (f.desc)(), sz, budget, depth + 1))
                    })
                    .collect(),
            )
        }
    }
}

/// a random wire tree of a given wire type, for unknown fields
pub fn gen_wire(t: &mut Tape, ty: u8, depth: u32) -> W {
    match ty {
        1 | 2 => W::Bool(t.below(2) == 1),
        3 => W::Byte(t.below(256) as u8 as i8),
        4 => W::Int(4, gen_int(t, 16)),
        5 => W::Int(5, gen_int(t, 32)),
        6 => W::Int(6, gen_int(t, 64)),
        7 => W::F64(t.word()),
        8 => {
            let n = gen_len(t, if depth == 0 { 1 } else { 0 }, 0);
            let seed = t.below(1 << 32);
            W::Bin(fill_bytes(seed, n))
        }
        9 | 10 => {
            let elem = gen_type(t, depth);
            let n = if (1..=7).contains(&elem) { gen_len(t, if depth == 0 { 1 } else { 0 }, 0).min(20_000) } else { small_len(t) };
            let n = if depth > 3 { n.min(3) } else { n };
            if n > 20 {
                let mut sub = Tape::unrecorded(t.below(1 << 32));
                W::List { tag: ty, elem, items: (0..n).map(|_| gen_wire(&mut sub, elem, depth + 3)).collect() }
            } else {
                W::List { tag: ty, elem, items: (0..n).map(|_| gen_wire(t, elem, depth + 1)).collect() }
            }
        }
        11 => {
            if depth < 2 && t.chance(1, 8) {
                // many entries of simple types
                let (kt, vt) = (*t.pick(&[5, 8, 3, 2]), *t.pick(&[6, 8, 2, 7, 4, 3]));
                let n = *t.pick(&[127, 128, 129, 255, 256, 257, 300, 1000]);
                let mut sub = Tape::unrecorded(t.below(1 << 32));
                let entries = (0..n).map(|_| (gen_wire(&mut sub, kt, 9), gen_wire(&mut sub, vt, 9))).collect();
                return W::Map { kt, vt, entries };
            }
            let kt = gen_type(t, depth);
            let vt = gen_type(t, depth);
            let n = small_len(t);
            W::Map { kt, vt, entries: (0..n).map(|_| (gen_wire(t, kt, depth + 1), gen_wire(t, vt, depth + 1))).collect() }
        }
        12 => {
            let mut id = 0_i16;
            let mut s = WStruct::default();
            if depth < 2 && !small() && t.chance(1, 25) {
                // many fields of simple types
                let n = *t.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000]);
                let mut sub = Tape::unrecorded(t.below(1 << 32));
                for _ in 0..n {
                    let ty = *sub.pick(&[2, 5, 3, 8, 6, 7, 4]);
                    id += 1 + sub.below(15) as i16;
                    s.fields.push((id, gen_wire(&mut sub, ty, 9)));
                }
                return W::Struct(s);
            }
            let n = t.below(5);
            for _ in 0..n {
                let ty = gen_type(t, depth);
                id = match t.weighted(&[6, 1, 1]) {
                    0 => id.wrapping_add(1 + t.below(15) as i16),
                    1 => id.wrapping_add(t.range(16, 300) as i16),
                    _ => t.word() as i16,
                };
                s.fields.push((id, gen_wire(t, ty, depth + 1)));
            }
            W::Struct(s)
        }
        _ => unreachable!("harness: wire type {ty}"),
    }
}

fn small_len(t: &mut Tape) -> usize {
    match t.weighted(&[8, 2]) {
        0 => t.below(4) as usize,
        _ => t.range(4, 17) as usize,
    }
}

pub fn gen_type(t: &mut Tape, depth: u32) -> u8 {
    if depth >= 5 {
        *t.pick(&[2, 3, 4, 5, 6, 7, 8])
    } else {
        *t.pick(&[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
    }
}
