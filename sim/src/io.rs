//! Simulated sources and sinks. They decide, from the tape, how many bytes each call
//! transfers, which calls are interrupted and where the transfer fails.

use crate::alloc::untracked;
use crate::ctx::{self, count, C};
use crate::guard::GuardBuf;
use crate::tape::{Prng, Tape};
use crate::types::{skip_slice, skip_stream, TypeOps};
use crate::model::Value;
use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice, CompactThriftOutput, ThriftError};
use std::borrow::Cow;
use std::io::{self, BufReader, ErrorKind, Read, Write};

#[derive(Clone, Copy, Debug)]
pub enum Chunk {
    All,
    One,
    Fixed(usize),
    Random(usize),
}

/// How a stream splits and interrupts transfers.
#[derive(Clone)]
pub struct Delivery {
    pub chunk: Chunk,
    /// interrupted calls per 100
    pub eintr: u64,
    pub burst: u64,
    pub rng: Prng,
}

impl Delivery {
    pub fn smooth() -> Self {
        Delivery { chunk: Chunk::All, eintr: 0, burst: 0, rng: Prng::new(0) }
    }
    pub fn draw(t: &mut Tape) -> Self {
        let chunk = match t.weighted(&[3, 3, 3, 3]) {
            0 => Chunk::All,
            1 => Chunk::One,
            2 => Chunk::Fixed(*t.pick(&[2, 3, 4, 5, 7, 8, 13, 16, 64, 1000, 4096])),
            _ => Chunk::Random(*t.pick(&[3, 8, 20, 100, 3000])),
        };
        let eintr = if t.chance(1, 25) { 98 } else { *t.pick(&[0, 0, 2, 20, 60]) };
        let burst = match eintr {
            0 => 0,
            // hardly ever anything else
            98 => *t.pick(&[5, 12, 40, 150]),
            _ => t.range(1, 4),
        };
        let seed = if matches!(chunk, Chunk::Random(_)) || eintr > 0 { t.below(1 << 32) } else { 0 };
        Delivery { chunk, eintr, burst, rng: Prng::new(seed) }
    }
    fn limit(&mut self, n: usize) -> usize {
        let m = match self.chunk {
            Chunk::All => n,
            Chunk::One => 1,
            Chunk::Fixed(k) => k,
            Chunk::Random(k) => 1 + self.rng.below(k as u64) as usize,
        };
        m.min(n)
    }
    fn interrupt(&mut self, run: &mut u64) -> bool {
        if self.eintr > 0 && *run < self.burst && self.rng.below(100) < self.eintr {
            *run += 1;
            true
        } else {
            *run = 0;
            false
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Kind(ErrorKind),
    /// an operating system error code
    Os(i32),
    /// Ok(0): end of file when reading, no progress when writing
    Zero,
    Panic,
}

pub const FAULTS: &[Fault] = &[
    Fault::Kind(ErrorKind::Other),
    Fault::Kind(ErrorKind::WouldBlock),
    Fault::Kind(ErrorKind::TimedOut),
    Fault::Kind(ErrorKind::ConnectionReset),
    Fault::Kind(ErrorKind::BrokenPipe),
    Fault::Kind(ErrorKind::PermissionDenied),
    Fault::Kind(ErrorKind::InvalidData),
    Fault::Kind(ErrorKind::StorageFull),
    Fault::Kind(ErrorKind::UnexpectedEof),
    Fault::Kind(ErrorKind::OutOfMemory),
    Fault::Os(5),
    Fault::Os(28),
    Fault::Os(110),
];

impl Fault {
    pub fn error(&self, rng_bit: bool) -> io::Error {
        match self {
            Fault::Kind(k) => {
                if rng_bit {
                    io::Error::new(*k, "simulated fault")
                } else {
                    io::Error::from(*k)
                }
            }
            Fault::Os(c) => io::Error::from_raw_os_error(*c),
            _ => unreachable!(),
        }
    }
    pub fn kind(&self, write: bool) -> ErrorKind {
        match self {
            Fault::Zero if write => ErrorKind::WriteZero,
            Fault::Zero => ErrorKind::UnexpectedEof,
            Fault::Panic => unreachable!(),
            f => f.error(false).kind(),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct FailAt {
    pub at: usize,
    pub fault: Fault,
    /// fails on every further call, or recovers after one
    pub sticky: bool,
}

pub const SIM_PANIC: &str = "simulated panic of the caller's stream";

pub struct SimReader<'a> {
    data: &'a [u8],
    pub pos: usize,
    delivery: Delivery,
    pub fail: Option<FailAt>,
    fired: bool,
    run: u64,
    pub calls: u64,
    pub interrupts: u64,
    /// calls that asked for data when there was none left
    pub eof_calls: u64,
    /// calls after a hard error was returned
    pub calls_after_error: u64,
    pub max_calls: u64,
    /// largest position any call asked for
    pub max_end: usize,
    /// runs at the start of every call: other sessions, observers
    pub hook: Option<&'a mut dyn FnMut()>,
}

impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], delivery: Delivery) -> Self {
        let max_calls = 4 * data.len() as u64 + 4096;
        SimReader {
            data,
            pos: 0,
            delivery,
            fail: None,
            fired: false,
            run: 0,
            calls: 0,
            interrupts: 0,
            eof_calls: 0,
            calls_after_error: 0,
            max_calls,
            max_end: 0,
            hook: None,
        }
    }
    pub fn failing(mut self, f: Option<FailAt>) -> Self {
        self.fail = f;
        self
    }
    pub fn hooked(mut self, h: &'a mut dyn FnMut()) -> Self {
        self.hook = Some(h);
        self
    }
    fn step(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        count(C::IoCalls);
        self.calls += 1;
        if let Some(h) = &mut self.hook {
            h();
        }
        self.max_end = self.max_end.max(self.pos + buf.len());
        if self.fired {
            self.calls_after_error += 1;
        }
        if self.calls - self.interrupts > self.max_calls {
            panic!("CHECK: livelock, {} read calls for {} bytes", self.calls, self.data.len());
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.delivery.interrupt(&mut self.run) {
            self.interrupts += 1;
            count(C::EintrRead);
            ctx::event(0xE1);
            ctx::trace(|| format!("read({}) at {} -> interrupted", buf.len(), self.pos));
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        let mut end = self.data.len();
        if let Some(f) = self.fail {
            if self.pos >= f.at && (f.sticky || !self.fired) {
                self.fired = true;
                ctx::event(0xE2);
                ctx::trace(|| format!("read({}) at {} -> {:?}", buf.len(), self.pos, f.fault));
                match f.fault {
                    Fault::Zero => {
                        count(C::EofRead);
                        self.eof_calls += 1;
                        return Ok(0);
                    }
                    Fault::Panic => {
                        count(C::PanicRead);
                        crate::preempt::stop();
                        std::panic::resume_unwind(Box::new(SIM_PANIC));
                    }
                    fault => {
                        count(C::ErrRead);
                        return Err(fault.error(f.at % 2 == 1));
                    }
                }
            }
            if !self.fired {
                end = end.min(f.at);
            }
        }
        let avail = end - self.pos;
        let n = self.delivery.limit(avail.min(buf.len()));
        if n == 0 {
            self.eof_calls += 1;
        }
        if n < buf.len() {
            count(C::ShortRead);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        ctx::event(((n as u64) << 32) | buf.len() as u64);
        ctx::trace(|| format!("read({}) at {} -> {}", buf.len(), self.pos, n));
        self.pos += n;
        Ok(n)
    }
}

impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        untracked(|| self.step(buf))
    }
}

pub struct SimWriter<'h> {
    pub accepted: Vec<u8>,
    pub hook: Option<&'h mut dyn FnMut()>,
    delivery: Delivery,
    pub fail: Option<FailAt>,
    pub fired: bool,
    run: u64,
    pub calls: u64,
    interrupts: u64,
}

impl<'h> SimWriter<'h> {
    pub fn new(delivery: Delivery) -> Self {
        SimWriter { accepted: Vec::new(), hook: None, delivery, fail: None, fired: false, run: 0, calls: 0, interrupts: 0 }
    }
    pub fn failing(mut self, f: Option<FailAt>) -> Self {
        self.fail = f;
        self
    }
    pub fn hooked(mut self, h: &'h mut dyn FnMut()) -> Self {
        self.hook = Some(h);
        self
    }
    fn step(&mut self, buf: &[u8]) -> io::Result<usize> {
        count(C::IoCalls);
        self.calls += 1;
        if let Some(h) = &mut self.hook {
            h();
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.calls - self.interrupts > 200_000_000 {
            panic!("CHECK: livelock, {} write calls", self.calls);
        }
        if self.delivery.interrupt(&mut self.run) {
            self.interrupts += 1;
            count(C::EintrWrite);
            ctx::event(0xF1);
            ctx::trace(|| format!("write({}) at {} -> interrupted", buf.len(), self.accepted.len()));
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        let mut room = usize::MAX;
        if let Some(f) = self.fail {
            if self.accepted.len() >= f.at && (f.sticky || !self.fired) {
                self.fired = true;
                ctx::event(0xF2);
                ctx::trace(|| format!("write({}) at {} -> {:?}", buf.len(), self.accepted.len(), f.fault));
                match f.fault {
                    Fault::Zero => {
                        count(C::ZeroWrite);
                        return Ok(0);
                    }
                    Fault::Panic => {
                        count(C::PanicWrite);
                        crate::preempt::stop();
                        std::panic::resume_unwind(Box::new(SIM_PANIC));
                    }
                    fault => {
                        count(C::ErrWrite);
                        return Err(fault.error(f.at % 2 == 1));
                    }
                }
            }
            if !self.fired {
                room = f.at - self.accepted.len();
            }
        }
        let n = self.delivery.limit(buf.len().min(room));
        if n < buf.len() {
            count(C::ShortWrite);
        }
        self.accepted.extend_from_slice(&buf[..n]);
        ctx::event(((n as u64) << 32) | buf.len() as u64 | 1 << 63);
        ctx::trace(|| format!("write({}) -> {}", buf.len(), n));
        Ok(n)
    }
}

impl Write for SimWriter<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        untracked(|| self.step(buf))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------
// sources

#[derive(Clone, Debug, PartialEq)]
pub enum SourceKind {
    Memory,
    Sim,
    Buffered(usize),
    Chained(usize),
    Taken,
    StdSlice,
    Cursor,
    /// a caller's own implementation of the input trait
    Custom,
}

/// A way to hand bytes to the code under test.
#[derive(Clone)]
pub struct Source {
    pub kind: SourceKind,
    pub delivery: Delivery,
    pub fail: Option<FailAt>,
}

impl std::fmt::Debug for Source {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.kind)?;
        if !matches!(self.kind, SourceKind::Memory) {
            write!(f, " {:?} eintr={}%", self.delivery.chunk, self.delivery.eintr)?;
        }
        if let Some(x) = self.fail {
            write!(f, " fails with {:?} at {}{}", x.fault, x.at, if x.sticky { "" } else { " once" })?;
        }
        Ok(())
    }
}

impl Source {
    pub fn memory() -> Self {
        Source { kind: SourceKind::Memory, delivery: Delivery::smooth(), fail: None }
    }
    pub fn draw(t: &mut Tape, len: usize) -> Self {
        if t.chance(1, 2) {
            Self::draw_stream(t, len)
        } else {
            Self::memory()
        }
    }
    pub fn draw_stream(t: &mut Tape, len: usize) -> Self {
        let kind = match t.weighted(&[10, 3, 2, 1, 1, 1, 1]) {
            0 => SourceKind::Sim,
            1 => SourceKind::Buffered(*t.pick(&[1, 2, 7, 16, 64, 8192])),
            2 => SourceKind::Chained(t.idx(len + 1)),
            3 => SourceKind::Taken,
            4 => SourceKind::StdSlice,
            5 => SourceKind::Cursor,
            _ => SourceKind::Custom,
        };
        let delivery = match kind {
            SourceKind::StdSlice | SourceKind::Cursor | SourceKind::Custom => Delivery::smooth(),
            _ => Delivery::draw(t),
        };
        Source { kind, delivery, fail: None }
    }
}

#[derive(Clone, Copy)]
pub enum What<'a> {
    Read(&'a TypeOps),
    /// skip a value of a wire type
    Skip(u8),
}

pub struct Outcome {
    pub result: Result<Value, ThriftError>,
    pub consumed: usize,
    /// only measured on `Sim` sources
    pub eof_calls: u64,
    pub calls_after_error: u64,
    pub calls: u64,
    pub interrupts: u64,
    pub max_end: usize,
}

impl Outcome {
    pub fn new() -> Self {
        Outcome {
            result: Ok(Value::Bool(true)),
            consumed: 0,
            eof_calls: 0,
            calls_after_error: 0,
            calls: 0,
            interrupts: 0,
            max_end: 0,
        }
    }
    pub fn brief(&self) -> String {
        match &self.result {
            Ok(v) => format!("Ok({}) after {} bytes", v.brief(), self.consumed),
            Err(e) => format!("Err({e:?})"),
        }
    }
    pub fn err(&self) -> String {
        match &self.result {
            Ok(_) => "Ok".into(),
            Err(e) => format!("{e:?}"),
        }
    }
}

pub fn on_stream(what: What, r: &mut dyn Read) -> Result<Value, ThriftError> {
    match what {
        What::Read(ops) => (ops.read_stream)(r),
        What::Skip(ty) => skip_stream(ty, r).map(|_| Value::Bool(true)),
    }
}
pub fn on_slice(what: What, i: &mut CompactThriftInputSlice) -> Result<Value, ThriftError> {
    match what {
        What::Read(ops) => (ops.read_slice)(i),
        What::Skip(ty) => skip_slice(ty, i).map(|_| Value::Bool(true)),
    }
}

/// read or skip one message
pub fn consume(what: What, bytes: &[u8], src: &Source) -> Outcome {
    consume_seq(&[what], bytes, src).pop().unwrap()
}

/// read or skip messages one after the other from one source, until one fails
pub fn consume_seq(whats: &[What], bytes: &[u8], src: &Source) -> Vec<Outcome> {
    let sim = |b| SimReader::new(b, src.delivery.clone()).failing(src.fail);
    fn all<R: Read>(whats: &[What], r: &mut R, mut pos: impl FnMut(&mut R, &mut Outcome)) -> Vec<Outcome> {
        let mut out = Vec::new();
        for w in whats {
            let mut o = Outcome::new();
            o.result = on_stream(*w, r);
            pos(r, &mut o);
            let stop = o.result.is_err();
            out.push(o);
            if stop {
                break;
            }
        }
        out
    }
    match &src.kind {
        SourceKind::Memory => {
            count(C::SliceSource);
            let g = GuardBuf::new(bytes);
            let mut i = CompactThriftInputSlice::new(g.as_slice());
            let all = g.as_slice().as_ptr_range();
            let mut out = Vec::new();
            for w in whats {
                let mut o = Outcome::new();
                o.result = on_slice(*w, &mut i);
                let rest = i.as_slice();
                if o.result.is_ok() {
                    assert!(
                        rest.as_ptr() >= all.start && rest.as_ptr_range().end == all.end,
                        "CHECK: the remaining slice is not the tail of the input"
                    );
                } else {
                    assert!(
                        rest.is_empty() || (rest.as_ptr() >= all.start && rest.as_ptr_range().end == all.end),
                        "CHECK: the remaining slice is not part of the input"
                    );
                }
                o.consumed = bytes.len() - rest.len();
                let stop = o.result.is_err();
                out.push(o);
                if stop {
                    break;
                }
            }
            out
        }
        SourceKind::Sim => {
            count(C::StreamSource);
            all(whats, &mut sim(bytes), |r, o| {
                o.consumed = r.pos;
                o.eof_calls = r.eof_calls;
                o.calls_after_error = r.calls_after_error;
                o.calls = r.calls;
                o.interrupts = r.interrupts;
                o.max_end = r.max_end;
            })
        }
        SourceKind::Buffered(cap) => {
            count(C::Adapter);
            all(whats, &mut BufReader::with_capacity(*cap, sim(bytes)), |r, o| {
                o.consumed = r.get_ref().pos - r.buffer().len()
            })
        }
        SourceKind::Chained(at) => {
            count(C::Adapter);
            let (a, b) = bytes.split_at((*at).min(bytes.len()));
            let fail_a = src.fail.filter(|f| f.at < a.len());
            let fail_b = src.fail.filter(|f| f.at >= a.len()).map(|f| FailAt { at: f.at - a.len(), ..f });
            let mut r = SimReader::new(a, src.delivery.clone())
                .failing(fail_a)
                .chain(SimReader::new(b, src.delivery.clone()).failing(fail_b));
            all(whats, &mut r, |r, o| {
                let (x, y) = r.get_ref();
                o.consumed = x.pos + y.pos
            })
        }
        SourceKind::Taken => {
            count(C::Adapter);
            all(whats, &mut sim(bytes).take(bytes.len() as u64), |r, o| o.consumed = r.get_ref().pos)
        }
        SourceKind::StdSlice => {
            count(C::Adapter);
            all(whats, &mut &*bytes, |r, o| o.consumed = bytes.len() - r.len())
        }
        SourceKind::Cursor => {
            count(C::Adapter);
            all(whats, &mut io::Cursor::new(bytes), |r, o| o.consumed = r.position() as usize)
        }
        SourceKind::Custom => {
            count(C::Custom);
            let mut i = PlainInput(bytes);
            let mut out = Vec::new();
            for w in whats {
                let mut o = Outcome::new();
                o.result = match w {
                    What::Read(ops) => (ops.read_plain)(&mut i),
                    What::Skip(ty) => crate::alloc::tracked(|| i.skip_field(*ty)).map(|_| Value::Bool(true)),
                };
                o.consumed = bytes.len() - i.0.len();
                let stop = o.result.is_err();
                out.push(o);
                if stop {
                    break;
                }
            }
            out
        }
    }
}

/// A caller's own input with nothing but the required methods.
pub struct PlainInput<'a>(pub &'a [u8]);

impl<'a> PlainInput<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], ThriftError> {
        untracked(|| ctx::event(n as u64));
        if n > self.0.len() {
            return Err(ErrorKind::UnexpectedEof.into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
}

impl<'a> CompactThriftInput<'a> for PlainInput<'a> {
    fn read_byte(&mut self) -> Result<u8, ThriftError> {
        Ok(self.take(1)?[0])
    }
    fn read_double(&mut self) -> Result<f64, ThriftError> {
        let mut b = [0; 8];
        b.copy_from_slice(self.take(8)?);
        Ok(f64::from_bits(u64::from_le_bytes(b)))
    }
    fn read_binary(&mut self) -> Result<Cow<'a, [u8]>, ThriftError> {
        let len = self.read_len()?;
        if len as u64 > crate::model::MAX_BIN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        Ok(Cow::Borrowed(self.take(len)?))
    }
}

/// A caller's own output with nothing but the required methods.
#[derive(Default)]
pub struct PlainOutput {
    pub bytes: Vec<u8>,
}

impl PlainOutput {
    fn put(&mut self, b: &[u8]) {
        untracked(|| {
            ctx::event(b.len() as u64 | 1 << 62);
            self.bytes.extend_from_slice(b)
        })
    }
    fn varint(&mut self, mut v: u64) {
        while v >= 0x80 {
            self.put(&[(v & 0x7F) as u8 | 0x80]);
            v /= 128;
        }
        self.put(&[v as u8]);
    }
    fn zigzag(&mut self, v: i64) -> Result<(), ThriftError> {
        self.varint(if v < 0 { !((v as u64) << 1) } else { (v as u64) << 1 });
        Ok(())
    }
}

impl CompactThriftOutput for PlainOutput {
    fn write_byte(&mut self, value: u8) -> Result<(), ThriftError> {
        self.put(&[value]);
        Ok(())
    }
    fn write_len(&mut self, value: usize) -> Result<(), ThriftError> {
        self.varint(value as u64);
        Ok(())
    }
    fn write_i16(&mut self, value: i16) -> Result<(), ThriftError> {
        self.zigzag(value as i64)
    }
    fn write_i32(&mut self, value: i32) -> Result<(), ThriftError> {
        self.zigzag(value as i64)
    }
    fn write_i64(&mut self, value: i64) -> Result<(), ThriftError> {
        self.zigzag(value)
    }
    fn write_double(&mut self, value: f64) -> Result<(), ThriftError> {
        self.put(&value.to_bits().to_le_bytes());
        Ok(())
    }
    fn write_binary(&mut self, value: &[u8]) -> Result<(), ThriftError> {
        self.varint(value.len() as u64);
        self.put(value);
        Ok(())
    }
}

/// A caller's own input over memory that lets other sessions run at every access.
pub struct HookedSlice<'a, 'h> {
    pub inner: CompactThriftInputSlice<'a>,
    pub hook: &'h mut dyn FnMut(),
}

impl HookedSlice<'_, '_> {
    fn tick(&mut self) {
        untracked(|| {
            count(C::IoCalls);
            (self.hook)()
        })
    }
}

impl<'a> CompactThriftInput<'a> for HookedSlice<'a, '_> {
    fn read_byte(&mut self) -> Result<u8, ThriftError> {
        self.tick();
        self.inner.read_byte()
    }
    fn read_double(&mut self) -> Result<f64, ThriftError> {
        self.tick();
        self.inner.read_double()
    }
    fn read_binary(&mut self) -> Result<Cow<'a, [u8]>, ThriftError> {
        self.tick();
        self.inner.read_binary()
    }
    fn skip_integer(&mut self) -> Result<(), ThriftError> {
        self.tick();
        self.inner.skip_integer()
    }
    fn skip_binary(&mut self) -> Result<(), ThriftError> {
        self.tick();
        self.inner.skip_binary()
    }
}

// ---------------------------------------------------------------------------------------
// sinks

#[derive(Clone, Debug)]
pub enum SinkKind {
    Sim,
    Buffered(usize),
    Vector,
    Cursor,
    /// a caller's own implementation of the output trait
    Custom,
}

#[derive(Clone)]
pub struct Sink {
    pub kind: SinkKind,
    pub delivery: Delivery,
}

impl std::fmt::Debug for Sink {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?} {:?} eintr={}%", self.kind, self.delivery.chunk, self.delivery.eintr)
    }
}

impl Sink {
    pub fn draw(t: &mut Tape) -> Self {
        let kind = match t.weighted(&[8, 2, 1, 1, 1]) {
            0 => SinkKind::Sim,
            1 => SinkKind::Buffered(*t.pick(&[1, 3, 16, 8192])),
            2 => SinkKind::Vector,
            3 => SinkKind::Cursor,
            _ => SinkKind::Custom,
        };
        let delivery = match kind {
            SinkKind::Vector | SinkKind::Cursor | SinkKind::Custom => Delivery::smooth(),
            _ => Delivery::draw(t),
        };
        Sink { kind, delivery }
    }
}

/// write values one after the other; the bytes that arrived
pub fn produce(ops: &[(TypeOps, &Value)], sink: &Sink) -> (Result<(), ThriftError>, Vec<u8>) {
    fn all(ops: &[(TypeOps, &Value)], w: &mut dyn Write) -> Result<(), ThriftError> {
        for (o, v) in ops {
            (o.write)(v, w)?;
        }
        Ok(())
    }
    match sink.kind {
        SinkKind::Sim => {
            let mut w = SimWriter::new(sink.delivery.clone());
            let r = all(ops, &mut w);
            (r, w.accepted)
        }
        SinkKind::Buffered(cap) => {
            count(C::Adapter);
            let mut w = io::BufWriter::with_capacity(cap, SimWriter::new(sink.delivery.clone()));
            let r = all(ops, &mut w);
            let f = w.flush().map_err(ThriftError::from);
            let (w, _) = w.into_parts();
            (r.and(f), w.accepted)
        }
        SinkKind::Vector => {
            count(C::Adapter);
            let mut w = Vec::new();
            let r = all(ops, &mut w);
            (r, w)
        }
        SinkKind::Cursor => {
            count(C::Adapter);
            let mut w = io::Cursor::new(Vec::new());
            let r = all(ops, &mut w);
            (r, w.into_inner())
        }
        SinkKind::Custom => {
            count(C::Custom);
            let mut w = PlainOutput::default();
            let r = ops.iter().try_for_each(|(o, v)| (o.write_plain)(v, &mut w));
            (r, w.bytes)
        }
    }
}
