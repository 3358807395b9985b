//! Cooperative scheduler: tasks are real threads, exactly one of them runs at any time, and
//! the tape decides at every I/O call which one continues. Includes a simulated full-duplex
//! connection with segmentation, latency and virtual time.

use crate::ctx::{self, count, C};
use crate::preempt::Point;
use crate::tape::{Prng, Tape};
use std::collections::VecDeque;
use std::io::{self, ErrorKind};
use std::sync::{Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    /// waits for bytes on this connection end
    Waiting(usize),
    /// blocked on something the scheduler does not know (a lock of the code under test
    /// whose holder was preempted), found out by `watch`
    Stuck,
    Done,
}

const NOBODY: usize = usize::MAX;

#[derive(Default)]
struct Direction {
    /// (delivery time in microseconds, bytes), in order
    flight: VecDeque<(u64, Vec<u8>)>,
    arrived: VecDeque<u8>,
    closed: bool,
    last: u64,
    pub sent: u64,
}

pub struct LinkConfig {
    pub segment: u64,
    pub latency: u64,
    pub stall_percent: u64,
    /// interrupted calls per 100
    pub eintr: u64,
    pub short: bool,
    /// the connection breaks when this many bytes have been sent in total
    pub reset_after: Option<u64>,
}

struct State {
    tape: Tape,
    current: usize,
    status: Vec<Status>,
    now: u64,
    /// `dirs[e]` carries bytes towards end `e`
    dirs: Vec<Direction>,
    cfg: Option<LinkConfig>,
    reset: bool,
    deadlock: bool,
    rng: Prng,
    switch_rate: u64,
    burst: Vec<u64>,
    switches: u64,
    /// the task that `current` names has taken over
    running: bool,
    tids: Vec<i32>,
}

#[cfg(not(miri))]
extern "C" {
    fn gettid() -> i32;
}
#[cfg(miri)]
unsafe fn gettid() -> i32 {
    0
}

pub struct Sched {
    state: Mutex<State>,
    wake: Vec<Condvar>,
    done: Condvar,
}

pub struct Task<'s> {
    pub sched: &'s Sched,
    pub id: usize,
}

pub struct Report {
    pub deadlock: bool,
    pub micros: u64,
    pub reset: bool,
    /// bytes that arrived or were in flight and that nobody took, per end
    pub left: Vec<usize>,
}

impl Sched {
    fn lock(&self) -> MutexGuard<'_, State> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// choose who runs next; `me` first, so that 0 keeps going
    fn choose(&self, s: &mut State, me: usize) -> Option<usize> {
        loop {
            let mut ready: Vec<usize> = Vec::new();
            let n = s.status.len();
            for k in 0..n {
                let i = (me + k) % n;
                if s.status[i] == Status::Ready {
                    ready.push(i);
                }
            }
            if !ready.is_empty() {
                if ready.len() == 1 {
                    return Some(ready[0]);
                }
                return Some(ready[s.tape.idx(ready.len())]);
            }
            // nobody can run: jump to the next delivery
            if !self.deliver_next(s) {
                return None;
            }
        }
    }

    fn deliver_next(&self, s: &mut State) -> bool {
        let mut best: Option<(u64, usize)> = None;
        for (e, d) in s.dirs.iter().enumerate() {
            if let Some((t, _)) = d.flight.front() {
                if best.is_none_or(|b| *t < b.0) {
                    best = Some((*t, e));
                }
            }
        }
        let Some((t, e)) = best else { return false };
        s.now = s.now.max(t);
        self.deliver(s, e);
        true
    }

    fn deliver(&self, s: &mut State, e: usize) {
        if let Some((_, b)) = s.dirs[e].flight.pop_front() {
            count(C::Delivery);
            ctx::event(0xD0 + e as u64 + ((b.len() as u64) << 8));
            s.dirs[e].arrived.extend(b);
            for st in s.status.iter_mut() {
                if *st == Status::Waiting(e) {
                    *st = Status::Ready;
                }
            }
        }
    }

    fn arrive_due(&self, s: &mut State) {
        let now = s.now;
        for e in 0..s.dirs.len() {
            while s.dirs[e].flight.front().is_some_and(|(t, _)| *t <= now) {
                self.deliver(s, e);
            }
        }
    }

    fn hand_over<'a>(&'a self, mut s: MutexGuard<'a, State>, me: usize) -> MutexGuard<'a, State> {
        match self.choose(&mut s, me) {
            Some(next) if next == me => s,
            Some(next) => {
                count(C::Switch);
                s.switches += 1;
                ctx::event(0x5000 + next as u64);
                ctx::trace(|| format!("-- switch from task {me} to task {next}"));
                s.current = next;
                s.running = false;
                self.wake[next].notify_one();
                while s.current != me {
                    s = self.wake[me].wait(s).unwrap_or_else(|e| e.into_inner());
                }
                s.running = true;
                s
            }
            None => {
                // every task waits for bytes that nobody will send
                s.deadlock = true;
                for i in 0..s.status.len() {
                    if matches!(s.status[i], Status::Waiting(_)) {
                        s.status[i] = Status::Ready;
                    }
                }
                s
            }
        }
    }

    fn finish(&self, me: usize) {
        let mut s = self.lock();
        s.status[me] = Status::Done;
        if s.status.iter().all(|x| *x == Status::Done) {
            self.done.notify_all();
            return;
        }
        if s.current != me {
            // was blocked on a lock, and others went on
            return;
        }
        match self.choose(&mut s, me) {
            Some(next) => {
                ctx::event(0x6000 + next as u64);
                s.current = next;
                s.running = false;
                self.wake[next].notify_one();
            }
            None if s.status.contains(&Status::Stuck) => s.current = NOBODY,
            None => {
                s.deadlock = true;
                for i in 0..s.status.len() {
                    if matches!(s.status[i], Status::Waiting(_)) {
                        s.status[i] = Status::Ready;
                    }
                }
                if let Some(next) = self.choose(&mut s, me) {
                    s.current = next;
                    s.running = false;
                    self.wake[next].notify_one();
                }
            }
        }
    }

    /// a task that was blocked on a lock has come to a scheduling point and queues up again
    fn rejoin<'a>(&'a self, mut s: MutexGuard<'a, State>, me: usize) -> MutexGuard<'a, State> {
        if s.current != me {
            s.status[me] = Status::Ready;
            if s.current == NOBODY {
                s.current = me;
            }
            while s.current != me {
                s = self.wake[me].wait(s).unwrap_or_else(|e| e.into_inner());
            }
            s.running = true;
        }
        s
    }

    /// With preemption between instructions the running task can block on a lock whose
    /// holder is not running. That is not a deadlock: let another task go on. The running
    /// thread sleeps nowhere else, so this depends on the schedule and not on the time.
    fn watch(&self) {
        let mut strikes = 0;
        let mut s = self.lock();
        while s.status.iter().any(|x| *x != Status::Done) {
            let switches = s.switches;
            let (g, _) = self.done.wait_timeout(s, std::time::Duration::from_millis(25)).unwrap_or_else(|e| e.into_inner());
            s = g;
            let me = s.current;
            let mut asleep = me != NOBODY && s.running && s.switches == switches && s.status[me] == Status::Ready;
            if asleep {
                let tid = s.tids[me];
                // not while holding the lock, the task may want it
                drop(s);
                asleep = sleeps(tid);
                s = self.lock();
                asleep &= s.switches == switches && s.current == me && s.running && s.status[me] == Status::Ready;
            }
            strikes = if asleep { strikes + 1 } else { 0 };
            if strikes < 3 {
                continue;
            }
            strikes = 0;
            s.status[me] = Status::Stuck;
            match self.choose(&mut s, me) {
                Some(next) => {
                    count(C::Rescue);
                    ctx::trace(|| format!("-- task {me} is blocked on a lock, task {next} goes on"));
                    s.current = next;
                    s.running = false;
                    self.wake[next].notify_one();
                }
                // nobody is left who could release it: the parent will notice
                None => s.status[me] = Status::Ready,
            }
        }
    }
}

fn sleeps(tid: i32) -> bool {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    stat.rsplit(')').next().is_some_and(|r| r.trim_start().starts_with('S'))
}

impl Task<'_> {
    /// a scheduling point
    pub fn yield_now(&self) {
        let mut s = self.sched.rejoin(self.sched.lock(), self.id);
        // stay for a random burst, so that schedules vary from fine to coarse
        if s.burst[self.id] > 0 {
            s.burst[self.id] -= 1;
            return;
        }
        let rate = s.switch_rate;
        s.burst[self.id] = if rate > 0 { s.rng.below(rate) } else { 0 };
        let s = self.sched.hand_over(s, self.id);
        drop(s);
    }

    /// a scheduling point between two instructions; how many may pass until the next one
    pub fn preempt(&self, at: Point) -> u64 {
        let mut s = self.sched.rejoin(self.sched.lock(), self.id);
        if at == Point::Access {
            if s.rng.below(2) == 0 {
                s = self.sched.hand_over(s, self.id);
            }
            return match s.rng.below(3) {
                0 => 0,
                1 => 1 + s.rng.below(6),
                _ => 1 + s.rng.below(60),
            };
        }
        s = self.sched.hand_over(s, self.id);
        if s.rng.below(10) == 0 {
            return 0;
        }
        distance(&mut s.rng)
    }
    pub fn distance(&self) -> u64 {
        let mut s = self.sched.rejoin(self.sched.lock(), self.id);
        distance(&mut s.rng)
    }

    pub fn recv(&self, end: usize, buf: &mut [u8]) -> io::Result<usize> {
        count(C::IoCalls);
        if buf.is_empty() {
            return Ok(0);
        }
        let mut s = self.sched.lock();
        s.now += 1;
        self.sched.arrive_due(&mut s);
        s = self.sched.hand_over(s, self.id);
        let cfg = s.cfg.as_ref().unwrap();
        let (eintr, short) = (cfg.eintr, cfg.short);
        if eintr > 0 && s.rng.below(100) < eintr {
            count(C::EintrRead);
            return Err(ErrorKind::Interrupted.into());
        }
        loop {
            if s.deadlock {
                return Err(ErrorKind::Deadlock.into());
            }
            if !s.dirs[end].arrived.is_empty() {
                let avail = s.dirs[end].arrived.len().min(buf.len());
                let n = if short { 1 + s.rng.below(avail as u64) as usize } else { avail };
                for b in buf[..n].iter_mut() {
                    *b = s.dirs[end].arrived.pop_front().unwrap();
                }
                if n < buf.len() {
                    count(C::ShortRead);
                }
                ctx::event(0x7000_0000 + ((end as u64) << 40) + ((buf.len() as u64) << 16) + n as u64);
                ctx::trace(|| format!("t={} end {end}: recv({}) -> {n}", s.now, buf.len()));
                return Ok(n);
            }
            if s.reset {
                return Err(ErrorKind::ConnectionReset.into());
            }
            if s.dirs[end].closed && s.dirs[end].flight.is_empty() {
                return Ok(0);
            }
            s.status[self.id] = Status::Waiting(end);
            ctx::trace(|| format!("t={} end {end}: recv({}) blocks", s.now, buf.len()));
            s = self.sched.hand_over(s, self.id);
            s.status[self.id] = Status::Ready;
        }
    }

    pub fn send(&self, end: usize, buf: &[u8]) -> io::Result<usize> {
        count(C::IoCalls);
        if buf.is_empty() {
            return Ok(0);
        }
        let mut s = self.sched.lock();
        s.now += 1;
        self.sched.arrive_due(&mut s);
        s = self.sched.hand_over(s, self.id);
        if s.deadlock {
            return Err(ErrorKind::Deadlock.into());
        }
        if s.reset {
            return Err(ErrorKind::ConnectionReset.into());
        }
        let cfg = s.cfg.as_ref().unwrap();
        let (eintr, seg, lat, stall, reset_after) =
            (cfg.eintr, cfg.segment, cfg.latency, cfg.stall_percent, cfg.reset_after);
        if eintr > 0 && s.rng.below(100) < eintr {
            count(C::EintrWrite);
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = if seg == 0 { buf.len() } else { (1 + s.rng.below(seg) as usize).min(buf.len()) };
        let to = 1 - end;
        if let Some(r) = reset_after {
            let total: u64 = s.dirs.iter().map(|d| d.sent).sum();
            if total >= r {
                count(C::Reset);
                s.reset = true;
                for d in s.dirs.iter_mut() {
                    d.flight.clear();
                }
                for st in s.status.iter_mut() {
                    if matches!(st, Status::Waiting(_)) {
                        *st = Status::Ready;
                    }
                }
                return Err(ErrorKind::ConnectionReset.into());
            }
            n = n.min((r - total) as usize);
        }
        let mut delay = if lat == 0 { 0 } else { s.rng.below(lat) };
        if stall > 0 && s.rng.below(1000) < stall {
            count(C::Stall);
            delay += 1_000_000 + s.rng.below(60_000_000);
        }
        let at = (s.now + delay).max(s.dirs[to].last);
        s.dirs[to].last = at;
        s.dirs[to].sent += n as u64;
        s.dirs[to].flight.push_back((at, buf[..n].to_vec()));
        if n < buf.len() {
            count(C::ShortWrite);
        }
        ctx::event(0x8000_0000 + ((end as u64) << 40) + n as u64);
        ctx::trace(|| format!("t={} end {end}: send({}) -> {n}, arrives at {at}", s.now, buf.len()));
        Ok(n)
    }

    pub fn close(&self, end: usize) {
        let mut s = self.sched.lock();
        let to = 1 - end;
        s.dirs[to].closed = true;
        for st in s.status.iter_mut() {
            if *st == Status::Waiting(to) {
                *st = Status::Ready;
            }
        }
    }
}

pub type Job<'a> = Box<dyn FnOnce(&Task<'_>) + Send + 'a>;

fn distance(rng: &mut Prng) -> u64 {
    1 + match rng.below(3) {
        0 => rng.below(12),
        1 => rng.below(100),
        _ => rng.below(800),
    }
}

/// run the jobs to the end under one schedule; `watch` if they can be preempted anywhere
pub fn run(t: &mut Tape, jobs: Vec<Job<'_>>, cfg: Option<LinkConfig>, watch: bool) -> Report {
    let n = jobs.len();
    let switch_rate = *t.pick(&[0, 1, 3, 10, 60]);
    let seed = t.below(1 << 32);
    let first = t.idx(n);
    let tape = std::mem::replace(t, Tape::unrecorded(0));
    let sched = Sched {
        state: Mutex::new(State {
            tape,
            current: first,
            status: vec![Status::Ready; n],
            now: 0,
            dirs: vec![Direction::default(), Direction::default()],
            cfg,
            reset: false,
            deadlock: false,
            rng: Prng::new(seed),
            switch_rate,
            burst: vec![0; n],
            switches: 0,
            running: false,
            tids: vec![0; n],
        }),
        wake: (0..n).map(|_| Condvar::new()).collect(),
        done: Condvar::new(),
    };
    let s = &sched;
    std::thread::scope(|scope| {
        for (id, job) in jobs.into_iter().enumerate() {
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(scope, move || {
                    let task = Task { sched: s, id };
                    {
                        let mut st = s.lock();
                        st.tids[id] = unsafe { gettid() };
                        while st.current != id {
                            st = s.wake[id].wait(st).unwrap_or_else(|e| e.into_inner());
                        }
                        st.running = true;
                    }
                    // jobs catch their own panics; this keeps the others going in any case
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| job(&task)));
                    s.finish(id);
                    if let Err(e) = r {
                        std::panic::resume_unwind(e);
                    }
                })
                .expect("harness: thread");
        }
        if watch {
            s.watch();
        }
    });
    let st = sched.state.into_inner().unwrap_or_else(|e| e.into_inner());
    *t = st.tape;
    ctx::add(C::SimMicros, st.now);
    Report {
        deadlock: st.deadlock,
        micros: st.now,
        reset: st.reset,
        left: st.dirs.iter().map(|d| d.arrived.len() + d.flight.iter().map(|f| f.1.len()).sum::<usize>()).collect(),
    }
}
