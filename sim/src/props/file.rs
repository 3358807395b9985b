//! C11, C12: Parquet files on a simulated disk, with a concurrent writer, crashes and faults.

use super::*;
use crate::alloc::{self, tracked, untracked};
use crate::corrupt;
use crate::ctx::{count, describe, event, nontrivial, C};
use crate::io::{Chunk, Delivery, Fault, FAULTS, SIM_PANIC};
use crate::model::{decode, encode_canonical, hex};
use crate::tape::Prng;
use crate::types::{pq, Model};
use crate::{ensure, fail};
use compact_thrift_parquet::{get_metadata_chunk, get_page_index_chunk, get_page_index_range, read_page_index, ParquetError};
use compact_thrift_runtime::{CompactThriftInputSlice, CompactThriftProtocol, ThriftError};
use std::borrow::Cow;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom};
use std::ops::Range;

#[derive(Clone, Debug)]
enum Change {
    Append(Vec<u8>),
    Truncate(usize),
}

struct SimFile {
    /// zeros in front of the data that take no memory, for positions beyond 2 and 4 GiB
    base: u64,
    data: Vec<u8>,
    pos: u64,
    delivery: Delivery,
    run: u64,
    /// applied when the given I/O call starts
    plan: Vec<(u64, Change)>,
    calls: u64,
    interrupts: u64,
    reads: u64,
    seeks: u64,
    read_fault: Option<(u64, Fault, bool)>,
    seek_fault: Option<(u64, Fault)>,
    fired: Option<ErrorKind>,
    /// every content the file had so far
    versions: Vec<Vec<u8>>,
    /// calls that made progress, and the bytes they delivered
    productive: u64,
    delivered: u64,
    longest: u64,
}

impl SimFile {
    fn new(data: Vec<u8>, delivery: Delivery) -> Self {
        let longest = data.len() as u64;
        SimFile {
            versions: vec![data.clone()],
            base: 0,
            data,
            pos: 0,
            delivery,
            run: 0,
            plan: Vec::new(),
            calls: 0,
            interrupts: 0,
            reads: 0,
            seeks: 0,
            read_fault: None,
            seek_fault: None,
            fired: None,
            productive: 0,
            delivered: 0,
            longest,
        }
    }
    fn change(&mut self, c: Change) {
        match c {
            Change::Append(b) => {
                count(C::Appended);
                ctx::trace(|| format!("-- writer appends {} bytes at {}", b.len(), self.data.len()));
                self.data.extend(b);
            }
            Change::Truncate(n) => {
                count(C::FileTruncated);
                ctx::trace(|| format!("-- file truncated from {} to {n}", self.data.len()));
                self.data.truncate(n);
            }
        }
        event(0xA000_0000 + self.data.len() as u64);
        self.longest = self.longest.max(self.data.len() as u64);
        self.versions.push(self.data.clone());
    }
    fn enter(&mut self) {
        count(C::IoCalls);
        self.calls += 1;
        // calls without progress, or the same bytes again and again
        let again = self.base == 0 && self.delivered > 40 * self.longest + 100_000;
        if again || self.calls - self.interrupts - self.productive > 100_000 {
            panic!("CHECK: livelock, {} calls for a file of {} bytes", self.calls, self.data.len());
        }
        while self.plan.first().is_some_and(|(at, _)| *at <= self.calls) {
            let (_, c) = self.plan.remove(0);
            self.change(c);
        }
    }
    /// like a read from the operating system
    fn do_read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.enter();
        if buf.is_empty() {
            return Ok(0);
        }
        if self.delivery.eintr > 0 && self.run < self.delivery.burst && self.delivery.rng.below(100) < self.delivery.eintr {
            self.run += 1;
            self.interrupts += 1;
            count(C::EintrRead);
            return Err(ErrorKind::Interrupted.into());
        }
        self.run = 0;
        self.reads += 1;
        if let Some((at, fault, sticky)) = self.read_fault {
            if self.reads == at || sticky && self.reads > at {
                ctx::trace(|| format!("read({}) at {} -> {fault:?}", buf.len(), self.pos));
                event(0xA1);
                match fault {
                    Fault::Zero => {
                        count(C::EofRead);
                        self.fired.get_or_insert(ErrorKind::UnexpectedEof);
                        return Ok(0);
                    }
                    Fault::Panic => std::panic::resume_unwind(Box::new(SIM_PANIC)),
                    f => {
                        count(C::ErrRead);
                        let e = f.error(at % 2 == 1);
                        self.fired.get_or_insert(e.kind());
                        return Err(e);
                    }
                }
            }
        }
        let size = self.base + self.data.len() as u64;
        let avail = size.saturating_sub(self.pos).min(usize::MAX as u64) as usize;
        let max = match self.delivery.chunk {
            Chunk::All => usize::MAX,
            Chunk::One => 1,
            Chunk::Fixed(k) => k,
            Chunk::Random(k) => 1 + self.delivery.rng.below(k as u64) as usize,
        };
        let n = avail.min(buf.len()).min(max);
        let zeros = (self.base.saturating_sub(self.pos)).min(n as u64) as usize;
        buf[..zeros].fill(0);
        if n > zeros {
            let from = (self.pos + zeros as u64 - self.base) as usize;
            buf[zeros..n].copy_from_slice(&self.data[from..from + n - zeros]);
        }
        if n < buf.len() {
            count(C::ShortRead);
        }
        ctx::trace(|| format!("read({}) at {} -> {n}", buf.len(), self.pos));
        event(((n as u64) << 32) | buf.len() as u64);
        self.pos += n as u64;
        self.productive += (n > 0) as u64;
        self.delivered += n as u64;
        Ok(n)
    }
    fn do_seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.enter();
        self.seeks += 1;
        if let Some((at, fault)) = self.seek_fault {
            if self.seeks == at {
                count(C::ErrSeek);
                event(0xA2);
                let e = fault.error(at % 2 == 0);
                self.fired.get_or_insert(e.kind());
                ctx::trace(|| format!("seek({to:?}) -> {e:?}"));
                return Err(e);
            }
        }
        let (base, off) = match to {
            SeekFrom::Start(n) => {
                // the operating system's offsets are signed
                if n > i64::MAX as u64 {
                    return Err(ErrorKind::InvalidInput.into());
                }
                (n as i128, 0)
            }
            SeekFrom::End(n) => (self.base as i128 + self.data.len() as i128, n as i128),
            SeekFrom::Current(n) => (self.pos as i128, n as i128),
        };
        let p = base + off;
        ctx::trace(|| format!("seek({to:?}) -> {p}"));
        if p < 0 || p > i64::MAX as i128 {
            return Err(ErrorKind::InvalidInput.into());
        }
        event(0xA3 + p as u64);
        self.pos = p as u64;
        Ok(self.pos)
    }
}

impl Read for SimFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        untracked(|| self.do_read(buf))
    }
}
impl Seek for SimFile {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        untracked(|| self.do_seek(to))
    }
}

fn footer(len: u32) -> Vec<u8> {
    let mut b = len.to_le_bytes().to_vec();
    b.extend(b"PAR1");
    b
}

/// metadata bytes in front of the footer that ends a file
fn metadata_of(base: u64, file: &[u8]) -> Option<Cow<'_, [u8]>> {
    let last = last_bytes(base, file)?;
    if &last[4..] != b"PAR1" {
        return None;
    }
    let n = file.len();
    let len = u32::from_le_bytes(last[..4].try_into().unwrap()) as usize;
    if n >= 8 && len <= n - 8 {
        return Some(Cow::Borrowed(&file[n - 8 - len..n - 8]));
    }
    if len as u64 > base + n as u64 - 8 {
        return None;
    }
    // reaches into the zeros
    let mut all = vec![0; len + 8 - n];
    all.extend_from_slice(file);
    all.truncate(len);
    Some(Cow::Owned(all))
}

fn last_bytes(base: u64, file: &[u8]) -> Option<[u8; 8]> {
    let n = file.len();
    if base + (n as u64) < 8 {
        return None;
    }
    let mut last = [0; 8];
    let k = n.min(8);
    last[8 - k..].copy_from_slice(&file[n - k..]);
    Some(last)
}

fn wrong_magic(base: u64, file: &[u8]) -> bool {
    last_bytes(base, file).is_some_and(|l| &l[4..] != b"PAR1")
}

/// where the stored bytes start: usually 0, sometimes close to or beyond 2 GiB, 4 GiB and more
fn far(t: &mut Tape) -> u64 {
    if !t.chance(1, 8) {
        return 0;
    }
    count(C::HugeFile);
    let edge = *t.pick(&[1_u64 << 32, 1 << 31, 1 << 33, 1 << 40, 1 << 53, 1 << 62]);
    edge - t.below(400) * t.below(2)
}

/// metadata of one generation of the file
fn metadata(t: &mut Tape) -> (Vec<u8>, Option<Value>) {
    match t.weighted(&[600, 200, 200, 100, 1]) {
        0 => {
            let d = pq::FileMetaData::desc();
            let sz = Sizes { nodes: *t.pick(&[12, 60]), long_list: 0, long_bin: *t.pick(&[0, 1]), opt: *t.pick(&[2, 1, 3, 4, 0]), huge: false, palette: Sizes::draw_palette(t, 5), medium: *t.pick(&[0, 0, 6]) };
            let v = model::gen(t, d, &sz);
            (encode_canonical(d, &v), Some(v))
        }
        1 => {
            let n = *t.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 100, 255, 256, 257]);
            let seed = t.below(1 << 32);
            (model::fill_bytes(seed, n), None)
        }
        2 => {
            let n = t.below(300) as usize;
            let seed = t.below(1 << 32);
            (model::fill_bytes(seed, n), None)
        }
        4 => {
            count(C::BigMessage);
            let n = *t.pick(&[1 << 20, (1 << 20) - 1, (1 << 20) + 1, (1 << 22) + 3, 1 << 24, (1 << 24) + 1, (1 << 24) - 9, 20_000_000]);
            let n = if model::small() { n >> 10 } else { n };
            let seed = t.below(1 << 32);
            (model::fill_bytes(seed, n), None)
        }
        _ => {
            let n = *t.pick(&[4095, 4096, 8191, 8192, 8193, 65_535, 65_536, 65_537, 70_000]);
            let seed = t.below(1 << 32);
            (model::fill_bytes(seed, n), None)
        }
    }
}

fn pages(t: &mut Tape) -> Vec<u8> {
    let n = match t.weighted(&[4, 2, 1]) {
        0 => t.below(40),
        1 => t.below(300),
        _ => t.below(10_000),
    } as usize;
    let seed = t.below(1 << 32);
    let mut b = model::fill_bytes(seed, n);
    if t.chance(1, 4) {
        // page data that looks like a footer
        let len = t.below(20) as u32;
        let at = t.idx(b.len() + 1);
        b.splice(at..at, footer(len));
    }
    b
}

fn generation(t: &mut Tape) -> (Vec<Vec<u8>>, Vec<u8>, Option<Value>) {
    let (m, v) = metadata(t);
    (vec![pages(t), m.clone(), footer(m.len() as u32)], m, v)
}

pub fn c11(t: &mut Tape) -> Check {
    let (parts, meta, value) = generation(t);
    let mut data = b"PAR1".to_vec();
    if t.chance(1, 30) {
        data.clear();
    }
    for p in &parts {
        data.extend(p);
    }
    let mut meta = Some(meta);
    let mut story = Vec::new();
    let mut plan: Vec<(u64, Change)> = Vec::new();
    let mode = t.weighted(&[4, 6, 3, 5, 4]);
    match mode {
        0 => {}
        1 => {
            // a writer that appends another generation in pieces, or truncates
            let mut len = data.len();
            let mut at = 1 + t.below(3);
            if t.chance(2, 3) {
                let n = 1 + t.below(2);
                for _ in 0..n {
                    let (parts, _, _) = generation(t);
                    for p in parts {
                        // one write or several
                        let cuts = t.below(3);
                        let mut rest = &p[..];
                        for _ in 0..cuts {
                            let k = t.idx(rest.len() + 1);
                            plan.push((at, Change::Append(rest[..k].to_vec())));
                            rest = &rest[k..];
                            at += t.below(3);
                        }
                        plan.push((at, Change::Append(rest.to_vec())));
                        len += p.len();
                        at += t.below(3);
                    }
                    if t.chance(1, 2) {
                        at += t.below(40);
                    }
                }
                story.push(format!("appends {} writes", plan.len()));
            }
            if plan.is_empty() || t.chance(1, 5) {
                for _ in 0..1 + t.below(3) {
                    len = match t.weighted(&[2, 2, 1]) {
                        0 => len.saturating_sub(t.below(30) as usize),
                        1 => t.idx(len + 1),
                        _ => len.saturating_sub(8 + meta.as_ref().unwrap().len()),
                    };
                    plan.push((at, Change::Truncate(len)));
                    story.push(format!("truncates to {len}"));
                    at += t.below(4);
                }
            }
            plan.retain(|(_, c)| !matches!(c, Change::Append(b) if b.is_empty()));
        }
        2 => {
            // the writer crashed; what is on the disk?
            data = crash(t, data, &mut story);
            meta = None;
        }
        3 => {
            // footer faults
            count(C::FooterFault);
            let n = data.len();
            match t.weighted(&[4, 2, 2, 2, 1]) {
                0 => {
                    let at = n - 8;
                    let max = (n - 8) as u64;
                    let len = match t.weighted(&[3, 2, 2, 2, 1, 2]) {
                        0 => t.below(max + 1),
                        1 => max,
                        2 => max + 1 + t.below(20),
                        3 => max.saturating_sub(1 + t.below(6)),
                        4 => {
                            if t.chance(1, 20) {
                                *t.pick(&[u32::MAX as u64, 1 << 31, (1 << 31) - 1, (1 << 31) + 5, u32::MAX as u64 - 7, u32::MAX as u64 - 8])
                            } else {
                                1 << 20
                            }
                        }
                        _ => max + t.below(1 << 22),
                    };
                    data[at..at + 4].copy_from_slice(&(len as u32).to_le_bytes());
                    story.push(format!("footer length {len}"));
                }
                1 => {
                    let at = n - 1 - t.idx(4);
                    data[at] ^= 1 << t.below(8);
                    story.push("magic damaged".into());
                }
                2 => {
                    let cut = match t.weighted(&[2, 1]) {
                        0 => n - t.idx(n.min(16)),
                        _ => t.idx(n + 1),
                    };
                    data.truncate(cut);
                    story.push(format!("cut to {cut}"));
                }
                3 => {
                    story.extend(corrupt::corrupt_some(t, &mut data).iter().map(|s| s.to_string()));
                }
                _ => {
                    let n = n - 4;
                    data[n..].copy_from_slice(*t.pick(&[b"PARE", b"PAR2", b"1RAP", b"par1", b"PAR\0", b"\0\0\0\0"]));
                    story.push("other magic".into());
                }
            }
            meta = None;
        }
        _ => {}
    }
    let mut delivery = Delivery::draw(t);
    if data.len() > 500_000 && !matches!(delivery.chunk, Chunk::All) {
        // a million small transfers add nothing
        delivery.chunk = Chunk::Random(100_000);
    }
    let base = if matches!(mode, 0 | 1 | 4) { far(t) } else { 0 };
    let mut file = SimFile::new(data, delivery.clone());
    file.base = base;
    file.pos = base + t.below(file.data.len() as u64 + 10);
    file.plan = plan;
    if mode == 4 || t.chance(1, 10) {
        let fault = if t.chance(1, 3) { Fault::Zero } else { *t.pick(FAULTS) };
        if t.chance(1, 3) {
            let f = if fault == Fault::Zero { Fault::Os(5) } else { fault };
            file.seek_fault = Some((1 + t.below(3), f));
            story.push(format!("{:?}", file.seek_fault));
        } else {
            let at = match t.weighted(&[3, 1]) {
                0 => 1 + t.below(3),
                _ => 1 + t.below(40),
            };
            let sticky = t.chance(1, 2);
            file.read_fault = Some((at, fault, sticky));
            story.push(format!("{:?}", file.read_fault));
        }
    }
    let wrap = match t.weighted(&[6, 1]) {
        0 => None,
        _ => Some(*t.pick(&[8, 1, 16, 64, 8192])),
    };
    let size = file.data.len();
    let start = hex(&file.data[size.saturating_sub(40)..]);
    describe(|| {
        format!(
            "file of {base}+{size} bytes ending in {start}, {story:?}, {} planned changes, delivery {:?} eintr {}%, buffer {wrap:?}",
            file.plan.len(),
            delivery.chunk,
            delivery.eintr
        )
    });
    alloc::reset();
    // untouched memory costs nothing, lengths in footers go up to 4 GiB
    alloc::set_limit(5 << 30);
    let r = match wrap {
        None => tracked(|| get_metadata_chunk(&mut file)),
        Some(cap) => {
            let mut b = io::BufReader::with_capacity(cap, &mut file);
            tracked(|| get_metadata_chunk(&mut b))
        }
    };
    let changed = file.versions.len() > 1;
    if changed || file.fired.is_some() || !story.is_empty() {
        nontrivial();
    }
    event(matches!(r, Ok(_)) as u64);
    let ctx = || format!("file of {base}+{size} bytes ending in {start}, {story:?}, {} versions, delivery {:?}, buffer {wrap:?}", file.versions.len(), delivery.chunk);
    let candidates: Vec<Cow<'_, [u8]>> = file.versions.iter().filter_map(|v| metadata_of(base, v)).collect();
    if candidates.iter().any(|c| *c != candidates[0]) {
        count(C::NewFooter);
    }
    match &r {
        Ok(got) => {
            count(C::FooterOk);
            ensure!(file.fired.is_none(), "failure-swallowed", "{}: success although a call failed with {:?}", ctx(), file.fired);
            ensure!(
                candidates.iter().any(|c| **c == got[..]),
                "wrong-metadata",
                "{}: {} bytes {} never preceded a footer that ended the file ({} candidates: {})",
                ctx(),
                got.len(),
                hex(got),
                candidates.len(),
                candidates.iter().map(|c| format!("{} bytes {}", c.len(), hex(c))).collect::<Vec<_>>().join(" | ").chars().take(600).collect::<String>()
            );
        }
        Err(e) => {
            count(C::FooterErr);
            if let Some(kind) = file.fired {
                match e {
                    ParquetError::Io(x) => {
                        ensure!(x.kind() == kind, "wrong-error", "{}: a call failed with {kind:?}, reported is {e:?}", ctx())
                    }
                    ParquetError::Thrift(ThriftError::IO(k)) => {
                        ensure!(*k == kind, "wrong-error", "{}: a call failed with {kind:?}, reported is {e:?}", ctx())
                    }
                    _ => fail!("wrong-error", "{}: a call failed with {kind:?}, reported is {e:?}", ctx()),
                }
            } else if !changed {
                ensure!(candidates.is_empty(), "footer-not-found", "{}: {e:?}", ctx());
                if wrong_magic(base, &file.data) {
                    ensure!(matches!(e, ParquetError::InvalidMagic), "wrong-error", "{}: wrong magic reported as {e:?}", ctx());
                } else {
                    ensure!(!matches!(e, ParquetError::InvalidMagic), "wrong-error", "{}: right magic reported as wrong", ctx());
                }
            } else if file.versions.iter().all(|v| metadata_of(base, v).is_some()) && !matches!(e, ParquetError::Io(_)) {
                // only a file that shrinks under the reader is an excuse
                fail!("footer-not-found", "{}: the file always ended with a footer, reported is {e:?}", ctx());
            } else if file.versions.windows(2).all(|w| w[1].starts_with(&w[0])) && file.versions.iter().all(|v| metadata_of(base, v).is_some()) {
                fail!("footer-not-found", "{}: the file only grew and always ended with a footer, reported is {e:?}", ctx());
            }
        }
    }
    // whatever came out is decoded
    if let Ok(got) = &r {
        alloc::set_limit(0);
        let m = tracked(|| pq::FileMetaData::read_thrift(&mut CompactThriftInputSlice::new(got)));
        if let (Some(v), Some(meta)) = (&value, &meta) {
            if got == meta {
                match &m {
                    Ok(m) => ensure!(m.to_value() == *v, "wrong-value", "{}: metadata decodes to {}", ctx(), m.to_value().brief()),
                    Err(e) => fail!("decode-failed", "{}: {e:?}", ctx()),
                }
            }
        }
        tracked(|| drop(m));
    }
    alloc::set_limit(0);
    Ok(())
}

/// contents after a crash of a writer over a disk that keeps, loses or tears each sector
/// written since the last flush
fn crash(t: &mut Tape, old: Vec<u8>, story: &mut Vec<String>) -> Vec<u8> {
    count(C::Crash);
    let sector = *t.pick(&[8, 16, 64, 512, 4]);
    // the file exists already, or is written for the first time
    let exists = t.chance(1, 2);
    let mut disk = if exists { old.clone() } else { Vec::new() };
    let mut image = disk.clone();
    let mut writes: Vec<(usize, Vec<u8>)> = Vec::new();
    if exists {
        let (parts, _, _) = generation(t);
        let mut at = old.len();
        for p in parts {
            let n = p.len();
            writes.push((at, p));
            at += n;
        }
    } else {
        let mut rest = &old[..];
        let mut at = 0;
        let cuts = 1 + t.below(4);
        for _ in 0..cuts {
            let k = t.idx(rest.len() + 1);
            writes.push((at, rest[..k].to_vec()));
            at += k;
            rest = &rest[k..];
        }
        writes.push((at, rest.to_vec()));
    }
    let crash_at = t.idx(writes.len()) + 1;
    let mut dirty: Vec<usize> = Vec::new();
    for (at, b) in writes.iter().take(crash_at) {
        if image.len() < at + b.len() {
            image.resize(at + b.len(), 0);
        }
        image[*at..at + b.len()].copy_from_slice(b);
        if !b.is_empty() {
            dirty.extend(at / sector..=(at + b.len() - 1) / sector);
        }
        if t.chance(1, 3) {
            // flushed
            disk = image.clone();
            dirty.clear();
        }
    }
    dirty.sort_unstable();
    dirty.dedup();
    // the length may be the flushed one, the written one, or one in between
    let (short, long) = (disk.len().min(image.len()), image.len());
    let len = match t.weighted(&[3, 1, 2]) {
        0 => long,
        1 => short,
        _ => short + t.idx(long - short + 1),
    };
    disk.resize(len, 0);
    let (mut lost, mut torn) = (0, 0);
    let mut fate = Prng::new(t.below(1 << 32));
    let rate = *t.pick(&[0, 1, 3, 8]);
    for s in dirty {
        let (from, to) = (s * sector, ((s + 1) * sector).min(len));
        if from >= len {
            continue;
        }
        match if fate.below(8) < rate { 1 + fate.below(2) } else { 0 } {
            0 => disk[from..to].copy_from_slice(&image[from..to]),
            1 => {
                lost += 1;
                count(C::LostSector);
            }
            _ => {
                torn += 1;
                count(C::TornSector);
                let k = from + fate.below((to - from) as u64) as usize;
                disk[from..k].copy_from_slice(&image[from..k]);
            }
        }
    }
    story.push(format!("crash after write {crash_at} of {}, sectors of {sector}: {lost} lost, {torn} torn, length {len} of {long}", writes.len()));
    disk
}

// ---------------------------------------------------------------------------------------
// C12

#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Locations {
    oo: Option<i64>,
    ol: Option<i32>,
    co: Option<i64>,
    cl: Option<i32>,
}

impl Locations {
    fn complete(&self) -> Option<(i64, i32, i64, i32)> {
        Some((self.oo?, self.ol?, self.co?, self.cl?))
    }
    fn odd(&self) -> bool {
        self.oo.is_some_and(|x| x < 0) || self.co.is_some_and(|x| x < 0) || self.ol.is_some_and(|x| x <= 0) || self.cl.is_some_and(|x| x <= 0)
    }
}

/// bytes of a location if it lies inside of `window`
fn slice(base: u64, file: &[u8], window: &Range<u64>, offset: i64, len: i32) -> Option<Vec<u8>> {
    if offset < 0 || len <= 0 {
        return None;
    }
    let (a, b) = (offset as u64, offset as u64 + len as u64);
    (a >= window.start && b <= window.end && a >= base && b <= base + file.len() as u64)
        .then(|| file[(a - base) as usize..(b - base) as usize].to_vec())
}

enum Expect {
    /// per row group and column
    Values(Vec<Vec<Option<(Value, Value)>>>),
    Error(String),
    /// the specification leaves it open
    Open,
}

fn expected(base: u64, file: &[u8], window: Range<u64>, locs: &[Vec<Locations>]) -> Expect {
    let mut out = Vec::new();
    let mut error = None;
    let mut open = false;
    for (g, rg) in locs.iter().enumerate() {
        let mut cols = Vec::new();
        for (c, l) in rg.iter().enumerate() {
            let Some((oo, ol, co, cl)) = l.complete() else {
                // an incomplete location with nonsense in it may be refused
                open |= l.odd();
                cols.push(None);
                continue;
            };
            let (Some(o), Some(i)) = (slice(base, file, &window, oo, ol), slice(base, file, &window, co, cl)) else {
                error.get_or_insert(format!("location of row group {g} column {c}"));
                continue;
            };
            let o = decode(pq::OffsetIndex::desc(), &o);
            let i = decode(pq::ColumnIndex::desc(), &i);
            match (o.result, i.result) {
                (Ok(a), Ok(b)) => {
                    open |= o.unspecified || i.unspecified;
                    cols.push(Some((a, b)));
                }
                (a, b) => {
                    // one of them is certainly wrong
                    if (a.is_err() && !o.unspecified) || (b.is_err() && !i.unspecified) {
                        error.get_or_insert(format!("index bytes of row group {g} column {c}"));
                    } else {
                        open = true;
                    }
                }
            }
        }
        out.push(cols);
    }
    match (error, open) {
        (Some(e), _) => Expect::Error(e),
        (None, true) => Expect::Open,
        (None, false) => Expect::Values(out),
    }
}

type Read2 = Result<Vec<Vec<Option<(pq::OffsetIndex, pq::ColumnIndex)>>>, ParquetError>;

fn judge(got: &Read2, want: &Expect, ctx: &dyn Fn() -> String) -> Check {
    match (got, want) {
        (Ok(_), Expect::Open) => count(C::Unspecified),
        (Err(_), Expect::Open) => count(C::Unspecified),
        (Err(_), Expect::Error(_)) => count(C::IndexErr),
        (Ok(_), Expect::Error(why)) => fail!("bad-index-accepted", "{}: {why} is bad, success reported", ctx()),
        (Err(e), Expect::Values(_)) => fail!("good-index-refused", "{}: {e:?}", ctx()),
        (Ok(got), Expect::Values(want)) => {
            count(C::IndexOk);
            ensure!(got.len() == want.len(), "wrong-shape", "{}: {} row groups instead of {}", ctx(), got.len(), want.len());
            for (g, (a, b)) in got.iter().zip(want).enumerate() {
                ensure!(a.len() == b.len(), "wrong-shape", "{}: row group {g} has {} columns instead of {}", ctx(), a.len(), b.len());
                for (c, (a, b)) in a.iter().zip(b).enumerate() {
                    let a = a.as_ref().map(|(o, i)| (o.to_value(), i.to_value()));
                    ensure!(
                        a == *b,
                        "wrong-index",
                        "{}: row group {g} column {c}: {:?} instead of {:?}",
                        ctx(),
                        a.as_ref().map(|x| (x.0.brief(), x.1.brief())),
                        b.as_ref().map(|x| (x.0.brief(), x.1.brief()))
                    );
                }
            }
        }
    }
    Ok(())
}

fn index_bytes(t: &mut Tape, d: Desc, sz: &Sizes) -> Vec<u8> {
    let v = model::gen(t, d, sz);
    let mut w = model::to_wire(d, &v);
    if t.chance(1, 5) {
        add_unknown(t, d, &mut w, 2);
    }
    let mut alt = if t.chance(1, 6) { Alt::draw(t) } else { Alt::canonical() };
    encoded(&w, &mut alt)
}

pub fn c12(t: &mut Tape) -> Check {
    let sz = Sizes { nodes: *t.pick(&[12, 30]), long_list: 0, long_bin: 0, opt: *t.pick(&[2, 0, 4]), huge: false, palette: Sizes::draw_palette(t, 5), medium: 0 };
    let groups = match t.weighted(&[24, 4, 1]) {
        0 => 1 + t.below(3) as usize,
        1 => 0,
        _ => t.range(4, 15) as usize,
    };
    let mut locs: Vec<Vec<Locations>> = Vec::new();
    // (row group, column, is column index, bytes)
    let mut blobs: Vec<(usize, usize, bool, Vec<u8>)> = Vec::new();
    let presence = t.below(3);
    for g in 0..groups {
        let cols = match t.weighted(&[24, 2, 1]) {
            0 => 1 + t.below(4) as usize,
            1 => 0,
            _ => t.range(5, 20) as usize,
        };
        let mut row = Vec::new();
        for c in 0..cols {
            let mask = match presence {
                0 => 15,
                1 => *t.pick(&[15, 0]),
                _ => *t.pick(&[15, 0, 15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]),
            };
            // marks presence, places follow
            let l = Locations {
                oo: (mask & 1 != 0).then_some(0),
                ol: (mask & 2 != 0).then_some(0),
                co: (mask & 4 != 0).then_some(0),
                cl: (mask & 8 != 0).then_some(0),
            };
            row.push(l);
            if mask & 3 != 0 {
                blobs.push((g, c, false, index_bytes(t, pq::OffsetIndex::desc(), &sz)));
            }
            if mask & 12 != 0 {
                blobs.push((g, c, true, index_bytes(t, pq::ColumnIndex::desc(), &sz)));
            }
        }
        locs.push(row);
    }
    let fault = t.weighted(&[5, 6, 4, 3, 3, 3]);
    let base = if fault != 1 { far(t) } else { 0 };
    // layout: usual order or any order, with or without gaps
    if t.chance(1, 2) {
        for i in (1..blobs.len()).rev() {
            let j = t.idx(i + 1);
            blobs.swap(i, i - j);
        }
    }
    let gaps = t.chance(1, 2);
    let mut file = b"PAR1".to_vec();
    if t.chance(1, 8) {
        file.clear();
    }
    file.extend(pages(t));
    for (g, c, col, b) in &blobs {
        if gaps {
            let n = if t.chance(1, 500) { t.range(30_000, 300_000) as usize } else { t.below(20) as usize };
            let seed = t.below(1 << 32);
            file.extend(model::fill_bytes(seed, n));
        }
        let l = &mut locs[*g][*c];
        // a location may cover some bytes behind the index
        let extra = if gaps && t.chance(1, 6) { t.below(6) as usize } else { 0 };
        let (o, n) = (base as i64 + file.len() as i64, (b.len() + extra) as i32);
        if *col {
            l.co = l.co.map(|_| o);
            l.cl = l.cl.map(|_| n);
        } else {
            l.oo = l.oo.map(|_| o);
            l.ol = l.ol.map(|_| n);
        }
        file.extend(b);
        file.extend(std::iter::repeat_n(0x33, extra));
    }
    // column chunks may share an index, most often neighbours
    if t.chance(1, 5) {
        let full: Vec<(usize, usize)> = (0..locs.len())
            .flat_map(|g| (0..locs[g].len()).map(move |c| (g, c)))
            .filter(|&(g, c)| locs[g][c].complete().is_some())
            .collect();
        if full.len() >= 2 {
            for _ in 0..1 + t.below(2) {
                let i = t.idx(full.len());
                let j = if t.chance(2, 3) { (i + 1) % full.len() } else { t.idx(full.len()) };
                let from = locs[full[i].0][full[i].1];
                let to = &mut locs[full[j].0][full[j].1];
                let which = t.below(3);
                if which != 0 {
                    (to.oo, to.ol) = (from.oo, from.ol);
                }
                if which != 1 {
                    (to.co, to.cl) = (from.co, from.cl);
                }
            }
        }
    }
    // the indexes may end the file, although usually the footer follows
    if t.chance(2, 3) {
        let n = 1 + t.below(60) as usize;
        let seed = t.below(1 << 32);
        file.extend(model::fill_bytes(seed, n));
    }
    let clean = locs.clone();
    let mut story: Vec<String> = Vec::new();
    let indexed = locs.iter().flatten().filter(|l| l.complete().is_some()).count();
    let n = file.len() as i64;
    match fault {
        1 => {
            // locations
            for _ in 0..1 + t.weighted(&[5, 1]) {
                let present: Vec<(usize, usize)> = locs
                    .iter()
                    .enumerate()
                    .flat_map(|(g, r)| r.iter().enumerate().filter(|(_, l)| **l != Locations::default()).map(move |(c, _)| (g, c)))
                    .collect();
                if present.is_empty() {
                    break;
                }
                let (g, c) = *t.pick(&present);
                let l = &mut locs[g][c];
                let which = t.below(4);
                let offset = match t.weighted(&[3, 2, 2, 2, 1, 1, 2]) {
                    0 => -1 - t.below(9) as i64,
                    1 => n + t.below(10) as i64,
                    2 => n - t.below(20) as i64,
                    3 => i64::MAX - t.below(3) as i64,
                    4 => i64::MIN + t.below(3) as i64,
                    5 => (1 << 32) + t.below(n as u64 + 1) as i64,
                    _ => t.below(n as u64 + 1) as i64,
                };
                let length = match t.weighted(&[3, 3, 2, 1, 2]) {
                    0 => -1 - t.below(9) as i32,
                    1 => 0,
                    2 => i32::MAX - t.below(3) as i32,
                    3 => i32::MIN + t.below(3) as i32,
                    _ => t.below(n as u64 + 20) as i32,
                };
                let mut hit = false;
                match which {
                    0 => l.oo = l.oo.map(|_| { hit = true; offset }),
                    1 => l.co = l.co.map(|_| { hit = true; offset }),
                    2 => l.ol = l.ol.map(|_| { hit = true; length }),
                    _ => l.cl = l.cl.map(|_| { hit = true; length }),
                }
                if hit {
                    count(C::LocFault);
                    story.push(format!("location of {g}/{c} is {l:?}"));
                }
            }
        }
        2 => {
            // index bytes
            let full: Vec<Locations> = locs.iter().flatten().filter(|l| l.complete().is_some()).copied().collect();
            if !full.is_empty() {
                let (oo, ol, co, cl) = t.pick(&full).complete().unwrap();
                let (o, l) = if t.chance(1, 2) { (oo, ol) } else { (co, cl) };
                let (o, l) = ((o - base as i64) as usize, l as usize);
                let mut part = file[o..o + l].to_vec();
                let names = corrupt::corrupt_some(t, &mut part);
                part.resize(l, 0x7e);
                file[o..o + l].copy_from_slice(&part);
                count(C::IndexFault);
                story.push(format!("index bytes at {o}: {names:?}"));
            }
        }
        _ => {}
    }
    let md = {
        let mut md = pq::FileMetaData::default();
        for r in &locs {
            let mut rg = pq::RowGroup::default();
            for l in r {
                rg.columns.push(pq::ColumnChunk {
                    offset_index_offset: l.oo,
                    offset_index_length: l.ol,
                    column_index_offset: l.co,
                    column_index_length: l.cl,
                    ..Default::default()
                });
            }
            md.row_groups.push(rg);
        }
        md
    };
    if indexed > 0 {
        nontrivial();
    }
    let mut delivery = Delivery::draw(t);
    if file.len() > 30_000 && !matches!(delivery.chunk, Chunk::All) {
        delivery.chunk = Chunk::Random(5000);
    }
    let mut disk = SimFile::new(file.clone(), delivery.clone());
    disk.base = base;
    disk.pos = base + t.below(file.len() as u64 + 1);
    match fault {
        3 => {
            // truncated before or while it is fetched
            let len = match t.weighted(&[2, 1]) {
                0 => file.len() - t.idx(file.len().min(100) + 1).min(file.len()),
                _ => t.idx(file.len() + 1),
            };
            let at = 1 + t.below(6);
            disk.plan = vec![(at, Change::Truncate(len))];
            story.push(format!("truncated to {len} at call {at}"));
        }
        4 => {
            let f = if t.chance(1, 3) { Fault::Zero } else { *t.pick(FAULTS) };
            if t.chance(1, 3) {
                disk.seek_fault = Some((1 + t.below(2), if f == Fault::Zero { Fault::Os(5) } else { f }));
            } else {
                disk.read_fault = Some((1 + t.below(4), f, t.chance(1, 2)));
            }
            story.push(format!("{:?} {:?}", disk.seek_fault, disk.read_fault));
        }
        _ => {}
    }
    let size = file.len();
    let locs_text = || locs.iter().map(|r| r.iter().map(|l| format!("{:?}", (l.oo, l.ol, l.co, l.cl))).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" / ");
    describe(|| format!("file of {base}+{size} bytes, locations {}, {story:?}, delivery {:?} eintr {}%", locs_text(), delivery.chunk, delivery.eintr));
    let ctx = || format!("file of {base}+{size} bytes, locations {}, {story:?}", model::brief(&locs_text(), 500));
    let full: Vec<(i64, i32, i64, i32)> = locs.iter().flatten().filter_map(|l| l.complete()).collect();
    let negative = full.iter().any(|l| l.0 < 0 || l.1 < 0 || l.2 < 0 || l.3 < 0);
    let odd_partial = locs.iter().flatten().any(|l| l.complete().is_none() && l.odd());
    let whole = base..base + size as u64;
    let want = expected(base, &file, whole.clone(), &locs);
    // the range
    alloc::reset();
    let range = tracked(|| get_page_index_range(&md));
    if !negative && full.iter().any(|l| (l.0 as u64 + l.1 as u64).max(l.2 as u64 + l.3 as u64) > usize::MAX as u64) {
        ensure!(range.is_err(), "bad-index-accepted", "{}: beyond the address space, but the range is {range:?}", ctx());
        let chunk = tracked(|| get_page_index_chunk(&mut disk, &md).is_err());
        ensure!(chunk, "bad-index-accepted", "{}: beyond the address space, but a chunk is returned", ctx());
        count(C::IndexErr);
        return Ok(());
    }
    if whole.end > usize::MAX as u64 {
        // no location of this file can be expressed
        return Ok(());
    }
    match &range {
        Err(e) => {
            ensure!(matches!(want, Expect::Error(_)) || odd_partial, "good-index-refused", "{}: range: {e:?}", ctx());
        }
        Ok(None) => {
            let bare = full.iter().all(|l| l.1 <= 0 && l.3 <= 0);
            ensure!(!negative && bare, "range-missing", "{}: no range", ctx());
        }
        Ok(Some(r)) => {
            ensure!(!negative, "bad-index-accepted", "{}: range {r:?} for negative locations", ctx());
            ensure!(!full.is_empty(), "range-invented", "{}: range {r:?} without any complete location", ctx());
            for (oo, ol, co, cl) in &full {
                for (o, l) in [(*oo, *ol), (*co, *cl)] {
                    ensure!(
                        l == 0 || r.start as u64 <= o as u64 && r.end as u64 >= o as u64 + l as u64,
                        "range-too-small",
                        "{}: range {r:?} does not contain {o}+{l}",
                        ctx()
                    );
                }
            }
            if matches!(want, Expect::Values(_)) {
                ensure!(r.end as u64 <= base + size as u64 && r.start as u64 >= base, "range-too-large", "{}: range {r:?}", ctx());
            }
        }
    }
    // the chunk
    alloc::reset();
    let chunk = tracked(|| get_page_index_chunk(&mut disk, &md));
    let m = alloc::report();
    ensure!(
        m.max_request <= 4 * size + (2 << 20),
        "memory-reserved",
        "{}: {} bytes requested to fetch from a file of {size}",
        ctx(),
        m.max_request
    );
    event(matches!(chunk, Ok(_)) as u64);
    let truncated = disk.versions.len() > 1;
    let fetched = match chunk {
        Err(e) => {
            if let Some(kind) = disk.fired {
                let k = match &e {
                    ParquetError::Io(x) => Some(x.kind()),
                    ParquetError::Thrift(ThriftError::IO(k)) => Some(*k),
                    _ => None,
                };
                ensure!(k == Some(kind), "wrong-error", "{}: a call failed with {kind:?}, reported is {e:?}", ctx());
            } else {
                ensure!(
                    matches!(want, Expect::Error(_)) || truncated || odd_partial,
                    "good-index-refused",
                    "{}: fetch: {e:?}",
                    ctx()
                );
            }
            count(C::IndexErr);
            None
        }
        Ok(x) => {
            ensure!(disk.fired.is_none(), "failure-swallowed", "{}: fetched although a call failed with {:?}", ctx(), disk.fired);
            ensure!(range.is_ok(), "bad-index-accepted", "{}: fetched {:?}", ctx(), x.as_ref().map(|x| &x.1));
            match &x {
                None => ensure!(matches!(range, Ok(None)), "range-missing", "{}: fetched nothing, range {range:?}", ctx()),
                Some((b, r)) => {
                    ensure!(Some(r) == range.as_ref().unwrap().as_ref(), "wrong-range", "{}: fetched {r:?}, range {range:?}", ctx());
                    ensure!(
                        r.start as u64 >= base
                            && r.end as u64 <= base + size as u64
                            && *b == file[r.start - base as usize..r.end - base as usize],
                        "wrong-chunk",
                        "{}: {} bytes for {r:?} are not those of the file",
                        ctx(),
                        b.len()
                    );
                }
            }
            Some(x)
        }
    };
    // the indexes
    if let Some(x) = fetched {
        let (b, offset) = match x {
            None => {
                if full.is_empty() {
                    count(C::IndexNone);
                }
                (vec![], 0)
            }
            Some((b, r)) => (b, r.start),
        };
        let got = tracked(|| read_page_index(&b, offset, &md));
        judge(&got, &want, &ctx)?;
        tracked(|| drop(got));
        tracked(|| drop(b));
    }
    // any other part of the file, as if fetched by other means
    if fault == 5 || t.chance(1, 6) {
        let (a, b) = (t.idx(size + 1), t.idx(size + 1));
        let (mut a, mut b) = (a.min(b), a.max(b));
        if let Ok(Some(r)) = &range {
            if r.start as u64 >= base && r.end as u64 <= base + size as u64 && t.chance(2, 3) {
                // a little more or less than needed
                let (start, end) = (r.start - base as usize, r.end - base as usize);
                a = (start + t.idx(3)).saturating_sub(t.idx(6));
                b = (end + t.idx(6)).saturating_sub(t.idx(3)).min(size);
                a = a.min(b);
            }
        }
        let want = expected(base, &file, base + a as u64..base + b as u64, &locs);
        let ctx = || format!("{}, read from the bytes {a}..{b} of the file", ctx());
        let got = tracked(|| read_page_index(&file[a..b], base as usize + a, &md));
        judge(&got, &want, &ctx)?;
        tracked(|| drop(got));
    }
    let _ = clean;
    Ok(())
}
