//! C08, C13: what happens around a session: the bytes behind a message, the peer, and other
//! sessions that are in progress at the same time.

use super::*;
use crate::alloc::untracked;
use crate::ctx::{count, describe, event, nontrivial, C};
use crate::io::{
    consume_seq, on_slice, on_stream, Delivery, FailAt, Fault, HookedSlice, SimReader, SimWriter, Source, SourceKind, What, FAULTS,
    SIM_PANIC,
};
use crate::model::{encode_canonical, hex};
use crate::runner::judge_panic;
use crate::preempt;
use crate::sched::{self, Job, LinkConfig, Task};
use crate::{ensure, fail};
use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice, ThriftError};
use std::io::{self, ErrorKind, Read, Write};
use std::sync::Mutex;

// ---------------------------------------------------------------------------------------
// C08

pub fn c08(t: &mut Tape) -> Check {
    if t.chance(1, 2) {
        conversation(t)
    } else {
        direct(t)
    }
}

struct Message {
    ops: TypeOps,
    value: Option<Value>,
    bytes: Vec<u8>,
    skip: bool,
}

fn message(t: &mut Tape) -> Message {
    if t.chance(1, 6) {
        // nothing but a value to skip
        let ty = *t.pick(&[12, 8, 3, 4, 5, 6, 7, 9, 10, 11]);
        let w = model::gen_wire(t, ty, 0);
        let mut alt = if t.chance(1, 3) { Alt::draw(t) } else { Alt::canonical() };
        let bytes = encoded(&w, &mut alt);
        let ops = TypeOps { field_type: ty, name: "any value", ..registry().by_name("Empty") };
        return Message { ops, value: None, bytes, skip: true };
    }
    let (ops, v) = case(t);
    let d = (ops.desc)();
    let mut w = model::to_wire(d, &v);
    let mut alt = Alt::canonical();
    if t.chance(1, 3) {
        add_unknown(t, d, &mut w, 3);
    }
    if t.chance(1, 4) {
        alt = Alt::draw(t);
    }
    let bytes = encoded(&w, &mut alt);
    // skipping a boolean outside of a collection takes no bytes
    let skip = t.chance(1, 5) && ops.field_type != 2;
    Message { ops, value: Some(v), bytes, skip }
}

impl Message {
    fn what(&self) -> What<'_> {
        if self.skip {
            What::Skip(self.ops.field_type)
        } else {
            What::Read(&self.ops)
        }
    }
    fn verb(&self) -> String {
        if self.skip {
            format!("skipping {} (wire type {})", self.ops.name, self.ops.field_type)
        } else {
            format!("reading {}", self.ops.name)
        }
    }
    fn right(&self, got: &Value) -> bool {
        self.skip || self.value.as_ref() == Some(got)
    }
}

fn direct(t: &mut Tape) -> Check {
    let n = if t.chance(1, 3) { 1 + t.below(4) } else { 1 };
    let msgs: Vec<Message> = (0..n).map(|_| message(t)).collect();
    let mut bytes = Vec::new();
    let mut ends = Vec::new();
    for m in &msgs {
        bytes.extend(&m.bytes);
        ends.push(bytes.len());
    }
    // what follows: nothing, something that would continue any value, something short or long
    let tail = *t.pick(&[0, 1, 2, 7, 8, 15, 16, 17, 40]);
    let style = t.below(4);
    for _ in 0..tail {
        bytes.push(match style {
            0 => 0,
            1 => 0x80,
            2 => 0xFF,
            _ => t.below(256) as u8,
        });
    }
    let src = match t.weighted(&[3, 2, 1]) {
        0 => Source { kind: SourceKind::Sim, delivery: Delivery::draw(t), fail: None },
        1 => Source::memory(),
        _ => Source::draw_stream(t, bytes.len()),
    };
    nontrivial();
    let whats: Vec<What> = msgs.iter().map(|m| m.what()).collect();
    describe(|| {
        let v: Vec<String> = msgs.iter().map(|m| m.verb()).collect();
        format!("{v:?} from {src:?} with {tail} bytes behind: {}", hex(&bytes))
    });
    let got = consume_seq(&whats, &bytes, &src);
    for (i, (m, o)) in msgs.iter().zip(&got).enumerate() {
        let verb = m.verb();
        match &o.result {
            Err(e) => fail!("read-failed", "{verb} (message {i}) from {src:?}: {e:?}; bytes {}", hex(&bytes)),
            Ok(x) => {
                ensure!(
                    m.right(x),
                    "value-changed",
                    "{verb} (message {i}) from {src:?}: {} instead of {:?}; bytes {}",
                    x.brief(),
                    m.value.as_ref().map(|v| v.brief()),
                    hex(&bytes)
                );
            }
        }
        ensure!(
            o.consumed == ends[i],
            "wrong-position",
            "{verb} (message {i}) from {src:?} stops at {}, the message ends at {}; bytes {}",
            o.consumed,
            ends[i],
            hex(&bytes)
        );
        if src.kind == SourceKind::Sim {
            ensure!(
                o.max_end <= ends[i] && o.eof_calls == 0,
                "reads-ahead",
                "{verb} (message {i}) from {src:?} asked for bytes up to {}, the message ends at {}; bytes {}",
                o.max_end,
                ends[i],
                hex(&bytes)
            );
        }
        event(o.consumed as u64);
    }
    Ok(())
}

enum Item {
    Message(Message),
    /// sent as it stands, taken with read_exact
    Payload(Vec<u8>),
}

struct Turn {
    from: usize,
    items: Vec<Item>,
}

struct LinkEnd<'t, 's> {
    task: &'t Task<'s>,
    end: usize,
}
impl Read for LinkEnd<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        untracked(|| self.task.recv(self.end, buf))
    }
}
impl Write for LinkEnd<'_, '_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        untracked(|| self.task.send(self.end, buf))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// how a party's part ended: at the last turn, or at an item with an error
#[derive(Debug)]
enum Party {
    Complete,
    Broken { turn: usize, item: usize, sending: bool, error: Option<ErrorKind>, what: String },
    Wrong(Fail),
    Panicked(Result<Fail, String>),
}
use crate::ctx::Fail;

fn play(me: usize, turns: &[Turn], link: &mut LinkEnd) -> Party {
    for (i, turn) in turns.iter().enumerate() {
        for (k, item) in turn.items.iter().enumerate() {
            let sending = turn.from == me;
            let r: Result<(), ThriftError> = match (item, sending) {
                (Item::Payload(p), true) => link.write_all(p).map_err(Into::into),
                (Item::Payload(p), false) => {
                    let mut buf = vec![0; p.len()];
                    match link.read_exact(&mut buf) {
                        Ok(()) if buf != *p => {
                            return Party::Wrong(Fail {
                                class: "payload-changed".into(),
                                detail: format!("turn {i} item {k}: payload {} arrives as {}", hex(p), hex(&buf)),
                            })
                        }
                        r => r.map_err(Into::into),
                    }
                }
                (Item::Message(m), true) => match &m.value {
                    // some messages come from other implementations
                    Some(v) if m.bytes == encode_canonical((m.ops.desc)(), v) => (m.ops.write)(v, link),
                    _ => link.write_all(&m.bytes).map_err(Into::into),
                },
                (Item::Message(m), false) => match on_stream(m.what(), link) {
                    Ok(x) if !m.right(&x) => {
                        return Party::Wrong(Fail {
                            class: "value-changed".into(),
                            detail: format!(
                                "turn {i} item {k}: {} gives {}, sent {:?} as {}",
                                m.verb(),
                                x.brief(),
                                m.value.as_ref().map(|v| v.brief()),
                                hex(&m.bytes)
                            ),
                        })
                    }
                    r => r.map(|_| ()),
                },
            };
            if let Err(e) = r {
                let error = match &e {
                    ThriftError::IO(k) => Some(*k),
                    _ => None,
                };
                let what = match item {
                    Item::Payload(p) => format!("a payload of {} bytes: {e:?}", p.len()),
                    Item::Message(m) => format!("{} ({}): {e:?}", m.ops.name, hex(&m.bytes)),
                };
                return Party::Broken { turn: i, item: k, sending, error, what };
            }
        }
    }
    Party::Complete
}

fn conversation(t: &mut Tape) -> Check {
    let mut turns = Vec::new();
    let n = 1 + t.below(6);
    let mut from = t.idx(2);
    let mut messages = 0;
    let mut total = 0;
    for _ in 0..n {
        let mut items = Vec::new();
        for _ in 0..1 + t.below(3) {
            if t.chance(1, 4) {
                let len = *t.pick(&[1, 2, 16, 0, 100, 5000]);
                let seed = t.below(1 << 32);
                total += len;
                items.push(Item::Payload(model::fill_bytes(seed, len)));
            } else {
                let m = message(t);
                messages += 1;
                total += m.bytes.len();
                items.push(Item::Message(m));
            }
        }
        turns.push(Turn { from, items });
        from = 1 - from;
    }
    let breaks = t.chance(1, 5);
    let reset_after = breaks.then(|| t.below(total as u64 + 1));
    // a byte at a time is fine for short conversations
    let small = total < 2000;
    let cfg = LinkConfig {
        segment: if small { *t.pick(&[0, 1, 3, 16, 100]) } else { *t.pick(&[0, 100, 1000]) },
        latency: *t.pick(&[0, 10, 1000, 100_000]),
        stall_percent: *t.pick(&[0, 0, 5, 50]),
        eintr: *t.pick(&[0, 0, 5, 40]),
        short: small && t.chance(1, 2),
        reset_after,
    };
    describe(|| {
        let script: Vec<String> = turns
            .iter()
            .map(|turn| {
                let items: Vec<String> = turn
                    .items
                    .iter()
                    .map(|i| match i {
                        Item::Payload(p) => format!("payload({})", p.len()),
                        Item::Message(m) => format!("{}({})", m.ops.name, m.bytes.len()),
                    })
                    .collect();
                format!("{}->{}: {}", turn.from, 1 - turn.from, items.join(" "))
            })
            .collect();
        format!(
            "conversation [{}] segment {} latency {}us stalls {}/1000 eintr {}% reset after {:?}",
            script.join("; "),
            cfg.segment,
            cfg.latency,
            cfg.stall_percent,
            cfg.eintr,
            cfg.reset_after
        )
    });
    let switches = ctx::counts()[C::Switch as usize];
    let results: [Mutex<Option<Party>>; 2] = [Mutex::new(None), Mutex::new(None)];
    let (turns_ref, results_ref) = (&turns, &results);
    let jobs: Vec<Job<'_>> = (0..2_usize)
        .map(|me| {
            Box::new(move |task: &Task<'_>| {
                let mut link = LinkEnd { task, end: me };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| play(me, turns_ref, &mut link)));
                let r = r.unwrap_or_else(|_| Party::Panicked(judge_panic()));
                *results_ref[me].lock().unwrap() = Some(r);
                task.close(me);
            }) as Job<'_>
        })
        .collect();
    let rep = sched::run(t, jobs, Some(cfg), false);
    if messages > 0 && ctx::counts()[C::Switch as usize] > switches {
        nontrivial();
    }
    event(rep.micros);
    let parties: Vec<Party> = results.into_iter().map(|r| r.into_inner().unwrap().expect("harness: party result")).collect();
    for (me, p) in parties.iter().enumerate() {
        match p {
            Party::Wrong(f) => fail!(f.class, "party {me}: {}", f.detail),
            Party::Panicked(Ok(f)) => fail!(f.class, "party {me}: {}", f.detail),
            Party::Panicked(Err(m)) => fail!("harness", "{m}"),
            _ => {}
        }
    }
    ensure!(!rep.deadlock, "deadlock", "both parties wait for each other: {parties:?}");
    for (me, p) in parties.iter().enumerate() {
        if let Party::Broken { turn, item, sending, error, what } = p {
            let verb = if *sending { "sending" } else { "receiving" };
            ensure!(rep.reset, "exchange-failed", "party {me}, turn {turn}, item {item}, {verb} {what} over a healthy connection");
            ensure!(
                matches!(error, Some(ErrorKind::ConnectionReset)) || !*sending && matches!(error, Some(ErrorKind::UnexpectedEof)),
                "wrong-error",
                "party {me}, turn {turn}, item {item}, {verb} {what} after a connection reset"
            );
        }
    }
    if !rep.reset {
        ensure!(rep.left == [0, 0], "bytes-left", "{:?} bytes were sent and not consumed", rep.left);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------
// C13

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Stream,
    Memory,
    /// memory, without a scheduling point per access
    Bare,
    Write,
}

#[derive(Clone)]
struct Session {
    kind: Kind,
    ops: TypeOps,
    skip: bool,
    value: Value,
    bytes: Vec<u8>,
    delivery: Delivery,
    fail: Option<FailAt>,
    /// abandon at this access, for memory sessions
    abandon: Option<u64>,
    /// I/O call of this session in which the next one runs
    /// the access at which the next session is nested: one of the first, or any
    nest_at: (bool, u64),
    /// the outcome is not specified
    open: bool,
    /// a list of which little more than the length is there
    hollow: bool,
}

#[derive(PartialEq, Debug)]
enum End {
    Value(Value),
    Error(String),
    Abandoned,
    Panicked(String, String),
    Harness(String),
}

#[derive(PartialEq, Debug)]
struct Res {
    end: End,
    consumed: usize,
    accepted: Vec<u8>,
}

impl Res {
    fn brief(&self) -> String {
        model::brief(&format!("{:?} consumed {} wrote {}", self.end, self.consumed, hex(&self.accepted)), 300)
    }
}

impl Session {
    fn healthy(&self) -> bool {
        self.fail.is_none() && self.abandon.is_none() && !self.hollow
    }
    fn name(&self) -> String {
        let mut s = format!("{:?} {}{} ({} bytes)", self.kind, if self.skip { "skip " } else { "" }, self.ops.name, self.bytes.len());
        if self.hollow {
            s.push_str(&format!(" announced only: {}", hex(&self.bytes)));
        }
        if let Some(f) = self.fail {
            s.push_str(&format!(" {:?} at {}", f.fault, f.at));
        }
        if let Some(a) = self.abandon {
            s.push_str(&format!(" abandoned at access {a}"));
        }
        s
    }

    fn run(&self, hook: &mut dyn FnMut()) -> Res {
        let mut res = Res { end: End::Abandoned, consumed: 0, accepted: Vec::new() };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.go(hook, &mut res)));
        if let Err(e) = r {
            res.end = if e.downcast_ref::<&str>() == Some(&SIM_PANIC) {
                count(C::Abandon);
                End::Abandoned
            } else {
                match judge_panic() {
                    Ok(f) => End::Panicked(f.class, f.detail),
                    Err(m) => End::Harness(m),
                }
            };
        }
        res
    }

    fn go(&self, hook: &mut dyn FnMut(), res: &mut Res) {
        let what = if self.skip { What::Skip(self.ops.field_type) } else { What::Read(&self.ops) };
        let end = |r: Result<Value, ThriftError>| match r {
            Ok(v) => End::Value(v),
            Err(e) => End::Error(format!("{e:?}")),
        };
        match self.kind {
            Kind::Stream => {
                let mut calls = 0;
                let mut h = || {
                    calls += 1;
                    hook()
                };
                let mut r = SimReader::new(&self.bytes, self.delivery.clone()).failing(self.fail).hooked(&mut h);
                res.end = end(on_stream(what, &mut r));
                res.consumed = r.pos;
            }
            Kind::Memory => {
                let mut calls = 0;
                let abandon = self.abandon;
                let mut h = || {
                    calls += 1;
                    if abandon == Some(calls) {
                        preempt::stop();
                        std::panic::resume_unwind(Box::new(SIM_PANIC));
                    }
                    hook()
                };
                let mut i = HookedSlice { inner: CompactThriftInputSlice::new(&self.bytes), hook: &mut h };
                let r = match what {
                    What::Read(ops) => (ops.read_hooked)(&mut i),
                    What::Skip(ty) => crate::alloc::tracked(|| i.skip_field(ty)).map(|_| Value::Bool(true)),
                };
                res.consumed = self.bytes.len() - i.inner.as_slice().len();
                res.end = end(r);
            }
            Kind::Bare => {
                let mut i = CompactThriftInputSlice::new(&self.bytes);
                let r = on_slice(what, &mut i);
                res.consumed = self.bytes.len() - i.as_slice().len();
                res.end = end(r);
            }
            Kind::Write => {
                let mut w = SimWriter::new(self.delivery.clone()).failing(self.fail).hooked(hook);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (self.ops.write)(&self.value, &mut w)));
                res.accepted = std::mem::take(&mut w.accepted);
                match r {
                    Ok(r) => res.end = end(r.map(|_| Value::Bool(true))),
                    Err(e) => std::panic::resume_unwind(e),
                }
            }
        }
    }
}

/// a list whose writer came no further than its length
fn hollow_session(t: &mut Tape, kind: Kind) -> Session {
    let (name, elem) = *t.pick(&[("Vec<i8>", 3), ("Vec<bool>", 2), ("Vec<i32>", 5), ("Vec<String>", 8)]);
    let len = t.range(1000, 10_000_000);
    let mut bytes = vec![0xF0 | elem];
    let mut left = len;
    while left > 0x7F {
        bytes.push(left as u8 | 0x80);
        left >>= 7;
    }
    bytes.push(left as u8);
    bytes.extend(std::iter::repeat_n(0, t.below(4) as usize));
    Session {
        kind,
        ops: registry().by_name(name),
        skip: false,
        value: Value::Bool(false),
        bytes,
        delivery: Delivery::draw(t),
        fail: None,
        abandon: None,
        nest_at: (t.chance(1, 2), t.below(1 << 20)),
        open: true,
        hollow: true,
    }
}

fn session(t: &mut Tape, kinds: &[Kind], family: Option<(TypeOps, u64)>) -> Session {
    if t.chance(1, 100) {
        let kind = *t.pick(kinds);
        return hollow_session(t, if kind == Kind::Write { Kind::Stream } else { kind });
    }
    let (ops, palette) = match family {
        Some(f) => f,
        None => (registry().pick(t), Sizes::draw_palette(t, 6)),
    };
    let d = (ops.desc)();
    let sz = Sizes {
        nodes: *t.pick(&[12, 60]),
        long_list: 0,
        long_bin: *t.pick(&[0, 1]),
        opt: *t.pick(&[2, 1, 3, 4]),
        huge: false,
        palette,
        medium: *t.pick(&[0, 0, 12]),
    };
    let value = model::gen(t, d, &sz);
    let kind = t.pick(kinds).clone();
    let skip = kind != Kind::Write && t.chance(1, 6) && ops.field_type != 2;
    let mut w = model::to_wire(d, &value);
    let mut alt = Alt::canonical();
    let mut open = false;
    if kind != Kind::Write {
        if t.chance(1, 3) {
            add_unknown(t, d, &mut w, 3);
        }
        if t.chance(1, 4) {
            alt = Alt::draw(t);
        }
        if t.chance(1, 4) {
            let depth = t.range(10, 60);
            open = depth > 40;
            let x = deep(t, depth);
            if let (W::Struct(s), Desc::Struct(sd)) = (&mut w, d) {
                if !sd().union {
                    s.fields.push((3333, x));
                }
            }
        }
    }
    let bytes = encoded(&w, &mut alt);
    let delivery = Delivery::draw(t);
    let mut fail = None;
    let mut abandon = None;
    if t.chance(2, 5) && !bytes.is_empty() {
        let at = t.idx(bytes.len());
        if kind == Kind::Bare {
            // cut short instead
        } else if kind == Kind::Memory {
            abandon = Some(1 + t.below(bytes.len() as u64));
        } else {
            let fault = match t.below(3) {
                0 => Fault::Panic,
                1 => Fault::Zero,
                _ => *t.pick(FAULTS),
            };
            fail = Some(FailAt { at, fault, sticky: true });
        }
    }
    let nest_at = (t.chance(1, 2), t.below(1 << 20));
    Session { kind, ops, skip, value, bytes, delivery, fail, abandon, nest_at, open, hollow: false }
}

/// session `i` with the following ones inside each other's I/O calls
fn run_nested(sessions: &[Session], accesses: &[u64], order: &[usize], level: usize, out: &mut Vec<Option<Res>>) {
    if level >= order.len() {
        return;
    }
    let s = &sessions[order[level]];
    let n = accesses[order[level]].max(1);
    let nest_at = 1 + s.nest_at.1 % if s.nest_at.0 { n.min(16) } else { n };
    let mut calls = 0;
    let mut started = false;
    let mut inner: Vec<Option<Res>> = sessions.iter().map(|_| None).collect();
    let r = s.run(&mut || {
        calls += 1;
        if calls == nest_at && !started {
            started = true;
            if level + 1 < order.len() {
                count(C::Nested);
                nontrivial();
                ctx::trace(|| format!("-- nested session {}", order[level + 1]));
                run_nested(sessions, accesses, order, level + 1, &mut inner);
                ctx::trace(|| format!("-- back in session {}", order[level]));
            }
        }
    });
    for (o, i) in out.iter_mut().zip(inner) {
        if i.is_some() {
            *o = i;
        }
    }
    out[order[level]] = Some(r);
    if !started {
        run_nested(sessions, accesses, order, level + 1, out);
    }
}

fn compare(how: &str, s: &Session, alone: &Res, other: &Res) -> Check {
    if let End::Harness(m) = &other.end {
        fail!("harness", "{m}");
    }
    if let (End::Panicked(c, d), false) = (&other.end, matches!(alone.end, End::Panicked(..))) {
        fail!(c, "{how}, {}: {d}", s.name());
    }
    ensure!(
        alone == other,
        "sessions-interfere",
        "{how}, {}: {} instead of {}; bytes {}",
        s.name(),
        other.brief(),
        alone.brief(),
        hex(&s.bytes)
    );
    Ok(())
}

pub fn c13(t: &mut Tape) -> Check {
    // how the sessions overlap: at I/O calls and accesses, nested, at any instruction, or at
    // accesses to global state as well
    let style = t.weighted(&[8, 5, 1, 4]);
    let (nested, anywhere, watched) = (style == 1, style >= 2, style == 3);
    let budget = 2000;
    let n = 2 + t.below(if anywhere { 3 } else { 5 }) as usize;
    let kinds: &[Kind] = if anywhere {
        &[Kind::Bare, Kind::Stream, Kind::Memory, Kind::Write]
    } else {
        &[Kind::Stream, Kind::Memory, Kind::Write]
    };
    // often what similar ones do to each other shows
    let family = t.chance(if anywhere { 2 } else { 1 }, 3).then(|| (registry().pick(t), Sizes::draw_palette(t, 2)));
    let mut sessions: Vec<Session> = (0..n).map(|_| session(t, kinds, family)).collect();
    if anywhere && t.chance(1, 3) {
        let of = t.idx(n);
        for i in 0..n {
            if i != of && t.chance(1, 2) {
                sessions[i] = sessions[of].clone();
            }
        }
    }
    let sessions = sessions;
    describe(|| {
        let v: Vec<String> = sessions.iter().map(|s| s.name()).collect();
        format!("{} sessions {}: {v:?}", n, ["on threads", "nested", "preempted anywhere", "on threads, globals watched"][style])
    });
    // alone, the healthy ones before anything has failed
    let mut alone: Vec<Option<Res>> = (0..n).map(|_| None).collect();
    let mut accesses = vec![0; n];
    for healthy in [true, false] {
        for (i, s) in sessions.iter().enumerate() {
            if s.healthy() == healthy {
                let r = s.run(&mut || accesses[i] += 1);
                match &r.end {
                    End::Harness(m) => fail!("harness", "{m}"),
                    End::Panicked(c, d) => fail!(c, "alone, {}: {d}", s.name()),
                    _ => {}
                }
                event(r.consumed as u64);
                if healthy && !s.open {
                    // sessions of earlier runs must not have left anything behind either
                    let right = match (&r.end, s.kind) {
                        (End::Value(_), Kind::Write) => r.accepted == s.bytes,
                        (End::Value(v), _) => (s.skip || *v == s.value) && r.consumed == s.bytes.len(),
                        _ => false,
                    };
                    ensure!(right, "wrong-alone", "alone, {}: {}; bytes {}", s.name(), r.brief(), hex(&s.bytes));
                }
                alone[i] = Some(r);
            }
        }
    }
    let alone: Vec<Res> = alone.into_iter().map(|r| r.unwrap()).collect();
    for (s, r) in sessions.iter().zip(&alone) {
        if s.fail.is_some_and(|f| f.fault != Fault::Panic) {
            count(if s.kind == Kind::Write { C::ErrWrite } else { C::ErrRead });
            ensure!(matches!(r.end, End::Error(_)), "failure-swallowed", "{} alone: {}", s.name(), r.brief());
        }
    }
    let switches = ctx::counts()[C::Switch as usize];
    if nested {
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = t.idx(i + 1);
            order.swap(i, i - j);
        }
        let mut out: Vec<Option<Res>> = (0..n).map(|_| None).collect();
        run_nested(&sessions, &accesses, &order, 0, &mut out);
        for ((s, a), o) in sessions.iter().zip(&alone).zip(out) {
            compare("nested", s, a, &o.expect("harness: session not run"))?;
        }
    } else {
        let threads = 2 + t.idx(n - 1);
        let slots: Vec<Mutex<Option<Res>>> = (0..n).map(|_| Mutex::new(None)).collect();
        let (sref, slref) = (&sessions, &slots);
        let jobs: Vec<Job<'_>> = (0..threads)
            .map(|me| {
                Box::new(move |task: &Task<'_>| {
                    for i in (me..sref.len()).step_by(threads) {
                        let r = if anywhere {
                            let arm = || {
                                if budget > 0 && !watched {
                                    preempt::arm(task.distance())
                                }
                            };
                            preempt::with(
                                |at| task.preempt(at),
                                budget,
                                if watched { 300 } else { 0 },
                                || {
                                    arm();
                                    let mut calls = 0_u64;
                                    sref[i].run(&mut || {
                                        task.yield_now();
                                        calls += 1;
                                        if calls % 4 == 0 {
                                            arm();
                                        }
                                    })
                                },
                            )
                        } else {
                            sref[i].run(&mut || task.yield_now())
                        };
                        *slref[i].lock().unwrap() = Some(r);
                        task.yield_now();
                    }
                }) as Job<'_>
            })
            .collect();
        let rep = sched::run(t, jobs, None, anywhere);
        ensure!(!rep.deadlock, "harness", "deadlock without a connection");
        if ctx::counts()[C::Switch as usize] >= switches + 2 {
            nontrivial();
        }
        for ((s, a), o) in sessions.iter().zip(&alone).zip(slots) {
            let o = o.into_inner().unwrap().expect("harness: session not run");
            compare("interleaved", s, a, &o)?;
        }
    }
    // and once more when all of that is over
    for (s, a) in sessions.iter().zip(&alone) {
        if s.healthy() {
            compare("afterwards", s, a, &s.run(&mut || {}))?;
        }
    }
    Ok(())
}
