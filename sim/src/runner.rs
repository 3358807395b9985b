//! Runs seeds in worker processes, finds the first violation, minimises it, verifies the
//! replay in a fresh process and writes the evidence.

use crate::ctx::{self, Fail};
use crate::model;
use crate::props::{Prop, PROPS};
use crate::tape::{Prng, Tape};
use crate::alloc;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// processor seconds without finishing a run after which the run counts as hanging
const HANG_CPU: f64 = 40.0;
/// the same in wall time
const HANG_WALL: f64 = 150.0;
/// seconds after which a process counts as deadlocked if all its threads sleep in the kernel all
/// the time and use no processor time; nothing in a run waits for anything outside its process
const DEADLOCK: f64 = 8.0;
const STACK: usize = 2 << 20;

// exit codes of the internal commands
const EXIT_FAIL: i32 = 10;
const EXIT_HARNESS: i32 = 12;

fn find(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {id}");
        std::process::exit(2)
    })
}

#[cfg(not(miri))]
extern "C" {
    fn personality(persona: u64) -> i32;
}
const ADDR_NO_RANDOMIZE: u64 = 0x0040000;

/// Random bytes of the operating system, which the standard library takes the keys of its
/// hash tables from: the same in every process, so that code that depends on them repeats.
#[cfg(not(miri))]
#[no_mangle]
extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let mut p = Prng::new(NEXT.fetch_add(1, Ordering::Relaxed));
    for i in 0..len {
        // Safety: the caller passes a buffer of len bytes
        unsafe { *buf.add(i) = p.next() as u8 };
    }
    len as isize
}

pub fn main(args: &[String]) -> i32 {
    install_hook();
    // the same addresses in every process started from here, where the system permits it
    #[cfg(not(miri))]
    unsafe { personality(ADDR_NO_RANDOMIZE) };
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["check", id, tier] => check(find(id), tier),
        ["worker", id, seed, w, n, total, dir, cap] => on_small_stack({
            let (id, dir) = (id.to_string(), PathBuf::from(dir));
            let (seed, w, n, total, cap) = (num(seed), num(w), num(n), num(total), num(cap));
            move || worker(find(&id), seed, w, n, total, &dir, cap)
        }),
        ["one", id, "seed", seed, run, log] => on_small_stack({
            let (id, log) = (id.to_string(), log.to_string());
            let (seed, run) = (num(seed), num(run));
            move || {
                let mut t = Tape::seeded(run_seed(&id, seed, run));
                if log != "-" {
                    t.log_to(Path::new(&log));
                }
                one(find(&id), t)
            }
        }),
        ["one", id, "tape", file] => on_small_stack({
            let (id, file) = (id.to_string(), file.to_string());
            move || one(find(&id), Tape::replay(read_tape(Path::new(&file))))
        }),
        ["history", id, seed, first, stride, last] => on_small_stack({
            let id = id.to_string();
            let (seed, first, stride, last) = (num(seed), num(first), num(stride), num(last));
            move || history(find(&id), seed, first, stride, last)
        }),
        ["shrink", id, file, class, secs] => on_small_stack({
            let (id, file, class) = (id.to_string(), file.to_string(), class.to_string());
            let secs = num(secs);
            move || shrink_here(find(&id), Path::new(&file), &class, secs)
        }),
        ["probe", id, finding] => on_small_stack({
            let (id, finding) = (id.to_string(), finding.to_string());
            move || probe(find(&id), &finding)
        }),
        ["machine"] => {
            println!("MACHINE {} {}", usize::BITS, if cfg!(target_endian = "big") { "big" } else { "little" });
            0
        }
        ["foreign", id, seed, first, stride, secs] => {
            let (id, seed, first, stride, secs) = (id.to_string(), num(seed), num(first), num(stride), num(secs));
            model::set_small(true);
            on_small_stack(move || foreign(find(&id), seed, first, stride, secs))
        }
        ["replay", file] => replay(Path::new(file)),
        ["selftest", id, runs] => selftest(find(id), num(runs)),
        ["show", id, seed, run] => on_small_stack({
            let id = id.to_string();
            let (seed, run) = (num(seed), num(run));
            move || {
                ctx::set_tracing(true);
                let c = one(find(&id), Tape::seeded(run_seed(&id, seed, run)));
                println!("case: {}", ctx::take_sample());
                for l in ctx::take_trace() {
                    println!("  {l}");
                }
                c
            }
        }),
        _ => {
            eprintln!("usage: simcheck check PROPERTY quick|thorough | replay FILE | selftest PROPERTY RUNS | show PROPERTY SEED RUN");
            2
        }
    }
}

fn num(s: &str) -> u64 {
    s.parse().unwrap_or_else(|_| panic!("harness: number {s}"))
}

/// decoding happens on a stack of the size std gives to threads
fn on_small_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap_or(EXIT_HARNESS)
}

// ---------------------------------------------------------------------------------------
// one run

static LAST_PANIC: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        alloc::untracked(|| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if std::env::var_os("SIM_PANICS").is_some() {
                eprintln!("panic: {msg} at {loc}");
            }
            *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = (msg, loc);
        })
    }));
}

/// what a caught panic means; `Err` is a defect of the harness
pub fn judge_panic() -> Result<Fail, String> {
    let (msg, loc) = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let ours = loc.starts_with("src/") && !loc.starts_with("src/types.rs");
    if msg.starts_with("harness:") || (ours && !msg.starts_with("CHECK:")) || loc.is_empty() {
        return Err(format!("{msg} at {loc}"));
    }
    if let Some(m) = msg.strip_prefix("CHECK: ") {
        let class: String = m.chars().take_while(|c| *c != ',').collect();
        return Ok(Fail { class: class.replace(' ', "-"), detail: m.to_string() });
    }
    let file = loc.rsplit('/').next().unwrap_or("").to_string();
    Ok(Fail { class: format!("panic-{file}").replace(' ', "-"), detail: format!("panicked: {msg} at {loc}") })
}

enum Run {
    Pass,
    Fail(Fail),
    Harness(String),
}

fn exec(p: &Prop, t: &mut Tape) -> Run {
    ctx::begin_run();
    alloc::reset();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(t))) {
        Ok(Ok(())) => Run::Pass,
        Ok(Err(f)) if f.class == "harness" => Run::Harness(f.detail),
        Ok(Err(f)) => Run::Fail(f),
        Err(e) => {
            if e.downcast_ref::<&str>() == Some(&crate::io::SIM_PANIC) {
                return Run::Harness("simulated panic escaped".into());
            }
            match judge_panic() {
                Ok(f) => Run::Fail(f),
                Err(m) => Run::Harness(m),
            }
        }
    }
}

/// runs on another machine, interpreted: as many as fit into `secs`, with small values
fn foreign(p: &Prop, seed: u64, first: u64, stride: u64, secs: u64) -> i32 {
    let begin = Instant::now();
    let mut i = first;
    while begin.elapsed().as_secs() < secs {
        println!("BEGIN {i}");
        let mut t = Tape::seeded(run_seed(p.id, seed, i));
        match exec(p, &mut t) {
            Run::Pass => println!("PASS {:016x}", ctx::hash()),
            Run::Fail(f) => {
                report(&f);
                return EXIT_FAIL;
            }
            Run::Harness(m) => {
                println!("HARNESS {m}");
                return EXIT_HARNESS;
            }
        }
        i += stride;
    }
    println!("OVER");
    0
}

pub fn run_seed(id: &str, seed: u64, run: u64) -> u64 {
    let mut h = seed ^ 0xA076_1D64_78BD_642F;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01B3);
    }
    let mut p = Prng::new(h);
    let base = p.next();
    Prng::new(base ^ run.wrapping_mul(0xD6E8_FEB8_6659_FD93)).next()
}

fn report(f: &Fail) {
    // one line each, parsed by the parent
    println!("CLASS {}", f.class);
    println!("DETAIL {}", f.detail.replace('\n', " "));
}

fn one(p: &Prop, mut t: Tape) -> i32 {
    if std::env::var_os("SIM_TRACE").is_some() {
        ctx::set_tracing(true);
    }
    let code = match exec(p, &mut t) {
        Run::Pass => 0,
        Run::Fail(f) => {
            report(&f);
            EXIT_FAIL
        }
        Run::Harness(m) => {
            println!("HARNESS {m}");
            EXIT_HARNESS
        }
    };
    println!("HASH {:016x}", ctx::hash());
    if std::env::var_os("SIM_TRACE").is_some() {
        println!("CASE {}", ctx::take_sample().replace('\n', " "));
        for l in ctx::take_trace() {
            println!("TRACE {l}");
        }
    }
    code
}

fn history(p: &Prop, seed: u64, first: u64, stride: u64, last: u64) -> i32 {
    let mut i = first;
    while i <= last {
        let mut t = Tape::seeded(run_seed(p.id, seed, i));
        match exec(p, &mut t) {
            Run::Pass => {}
            Run::Fail(f) => {
                report(&f);
                println!("RUN {i}");
                return EXIT_FAIL;
            }
            Run::Harness(m) => {
                println!("HARNESS {m}");
                return EXIT_HARNESS;
            }
        }
        i += stride;
    }
    0
}

fn probe(p: &Prop, finding: &str) -> i32 {
    let (_, f) = p.findings.iter().find(|(n, _)| *n == finding).expect("harness: finding");
    match std::panic::catch_unwind(f) {
        Ok(Ok(())) => 0,
        Ok(Err(f)) => {
            report(&f);
            EXIT_FAIL
        }
        Err(_) => match judge_panic() {
            Ok(f) => {
                report(&f);
                EXIT_FAIL
            }
            Err(m) => {
                println!("HARNESS {m}");
                EXIT_HARNESS
            }
        },
    }
}

// ---------------------------------------------------------------------------------------
// worker

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// one shared word: the run in progress plus one
struct Crumb(*const AtomicU64);
impl Crumb {
    fn open(path: &Path) -> Crumb {
        let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(4096).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "harness: mmap");
        Crumb(p.cast())
    }
    fn word(&self) -> &AtomicU64 {
        unsafe { &*self.0 }
    }
}

fn write_tape(path: &Path, tape: &[u64]) {
    let b: Vec<u8> = tape.iter().flat_map(|v| v.to_le_bytes()).collect();
    fs::write(path, b).unwrap();
}
fn read_tape(path: &Path) -> Vec<u64> {
    let b = fs::read(path).unwrap_or_default();
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

fn worker(p: &Prop, seed: u64, w: u64, n: u64, total: u64, dir: &Path, cap: u64) -> i32 {
    let crumb = Crumb::open(&dir.join(format!("{w}.crumb")));
    let start = Instant::now();
    let mut hashes: Vec<u64> = Vec::new();
    let mut all_hash = String::new();
    let want_hashes = std::env::var_os("SIM_HASHES").is_some();
    let mut samples: Vec<String> = Vec::new();
    let mut runs = 0;
    let mut i = w;
    let mut code = 0;
    while i < total {
        if start.elapsed().as_secs() >= cap {
            break;
        }
        crumb.word().store(i + 1, Ordering::SeqCst);
        let sampling = runs < 400 && samples.len() < 3 && runs % 37 == 5 || total <= 60;
        ctx::set_sampling(sampling);
        let mut t = Tape::seeded(run_seed(p.id, seed, i));
        let r = exec(p, &mut t);
        runs += 1;
        if sampling {
            let s = ctx::take_sample();
            if !ctx::is_trivial() && !s.is_empty() && samples.len() < 3 {
                samples.push(format!("seed {seed} run {i}: {s}"));
            }
        }
        if !ctx::is_trivial() {
            hashes.push(ctx::hash());
        }
        if want_hashes {
            let _ = writeln!(all_hash, "{i} {:016x}", ctx::hash());
        }
        match r {
            Run::Pass => {}
            Run::Fail(f) => {
                write_tape(&dir.join(format!("{w}.tape")), t.recorded());
                fs::write(dir.join(format!("{w}.fail")), format!("{i}\n{}\n{}\n", f.class, f.detail.replace('\n', " "))).unwrap();
                code = EXIT_FAIL;
                break;
            }
            Run::Harness(m) => {
                fs::write(dir.join(format!("{w}.harness")), format!("run {i}: {m}\n")).unwrap();
                code = EXIT_HARNESS;
                break;
            }
        }
        i += n;
    }
    crumb.word().store(0, Ordering::SeqCst);
    hashes.sort_unstable();
    hashes.dedup();
    write_tape(&dir.join(format!("{w}.hash")), &hashes);
    if want_hashes {
        fs::write(dir.join(format!("{w}.all")), all_hash).unwrap();
    }
    let mut s = format!("{runs}\n");
    for c in ctx::counts() {
        let _ = write!(s, "{c} ");
    }
    s.push('\n');
    for x in &samples {
        s.push_str(&x.replace('\n', " "));
        s.push('\n');
    }
    fs::write(dir.join(format!("{w}.stats")), s).unwrap();
    code
}

// ---------------------------------------------------------------------------------------
// parent

#[derive(Clone, Copy, PartialEq, Debug)]
enum Profile {
    Checked,
    Shipped,
    /// an interpreted x86 without SSE2 and with 32-bit addresses
    I586,
    /// an interpreted big-endian machine
    S390x,
}
const FOREIGN: [Profile; 2] = [Profile::I586, Profile::S390x];
impl Profile {
    fn of(run_or_worker: u64) -> Profile {
        if run_or_worker % 2 == 0 {
            Profile::Checked
        } else {
            Profile::Shipped
        }
    }
    fn name(self) -> &'static str {
        match self {
            Profile::Checked => "checked",
            Profile::Shipped => "shipped",
            Profile::I586 => "i586",
            Profile::S390x => "s390x",
        }
    }
    fn by_name(name: &str) -> Profile {
        *[Profile::Checked, Profile::I586, Profile::S390x].iter().find(|p| p.name() == name).unwrap_or(&Profile::Shipped)
    }
    fn foreign(self) -> bool {
        FOREIGN.contains(&self)
    }
    /// written by check.sh: runs the simulator built for this machine in the interpreter
    fn script(self) -> PathBuf {
        verif().join("target/foreign").join(self.name()).join("run.sh")
    }
    /// processor seconds and wall seconds of one run
    fn patience(self, class: &str) -> (f64, f64) {
        if class == "hang" && !self.foreign() {
            // it took much longer when it was found
            (8.0, 60.0)
        } else if self.foreign() {
            (300.0, 400.0)
        } else {
            (HANG_CPU, HANG_WALL)
        }
    }
    /// target/<profile>/simcheck next to our own executable
    fn exe(self) -> PathBuf {
        let me = std::env::current_exe().unwrap();
        me.parent().unwrap().parent().unwrap().join(self.name()).join("simcheck")
    }
    fn cmd(self, args: &[&str]) -> Command {
        let mut c = Command::new(if self.foreign() { "bash".into() } else { self.exe() });
        if self.foreign() {
            c.arg(self.script());
        }
        c.args(args).stdin(Stdio::null()).stderr(Stdio::null()).stdout(Stdio::null());
        c
    }
}

fn verif() -> PathBuf {
    std::env::var_os("SIM_HOME").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn cpu_seconds(pid: u32) -> f64 {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let Some(i) = s.rfind(')') else { return 0.0 };
    let f: Vec<&str> = s[i + 1..].split_whitespace().collect();
    let t: u64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0);
    t as f64 / 100.0
}

/// notices processes of which all threads sleep
struct Idle(f64, Instant);

impl Idle {
    fn new() -> Self {
        Idle(-1.0, Instant::now())
    }
    fn deadlocked(&mut self, pid: u32) -> bool {
        let cpu = cpu_seconds(pid);
        if cpu != self.0 || !all_asleep(pid) {
            *self = Idle(cpu, Instant::now());
        }
        self.1.elapsed().as_secs_f64() > DEADLOCK
    }
}

fn all_asleep(pid: u32) -> bool {
    let Ok(tasks) = fs::read_dir(format!("/proc/{pid}/task")) else { return false };
    let mut n = 0;
    for t in tasks.flatten() {
        let s = fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        let Some(i) = s.rfind(')') else { return false };
        if s[i + 1..].split_whitespace().next() != Some("S") {
            return false;
        }
        n += 1;
    }
    n > 0
}

/// how a process running exactly one run ended
#[derive(Debug, Clone, PartialEq)]
enum End {
    Pass,
    Fail { class: String, detail: String },
    Harness(String),
}

struct Finished {
    end: End,
    out: String,
}

fn signal_class(status: std::process::ExitStatus) -> (String, String) {
    use std::os::unix::process::ExitStatusExt;
    match status.signal() {
        Some(s) => {
            let name = match s {
                6 => "SIGABRT",
                7 => "SIGBUS",
                11 => "SIGSEGV",
                4 => "SIGILL",
                9 => "SIGKILL",
                _ => "signal",
            };
            (format!("death-{s}"), format!("the process died: {name} ({s})"))
        }
        None => (format!("death-exit-{}", status.code().unwrap_or(-1)), format!("the process ended with status {status}")),
    }
}

fn last_words(path: &Path) -> String {
    let s = fs::read(path).unwrap_or_default();
    let s = String::from_utf8_lossy(&s);
    let tail: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).take(4).collect();
    let mut r = tail.join(" | ");
    r.truncate(r.char_indices().take(300).last().map(|(i, c)| i + c.len_utf8()).unwrap_or(0));
    r
}

fn run_to_end(mut c: Command, dir: &Path, cpu: f64, wall: f64) -> Finished {
    let n = NEXT.fetch_add(1, Ordering::SeqCst);
    let err = dir.join(format!("e{n}"));
    let outp = dir.join(format!("o{n}"));
    c.stderr(fs::File::create(&err).unwrap()).stdout(fs::File::create(&outp).unwrap());
    let mut child = c.spawn().expect("harness: spawn");
    let start = Instant::now();
    let mut nap = 1;
    let mut idle = Idle::new();
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break Some(s);
        }
        if idle.deadlocked(child.id()) || cpu_seconds(child.id()) > cpu || start.elapsed().as_secs_f64() > wall {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
    };
    let out = String::from_utf8_lossy(&fs::read(&outp).unwrap_or_default()).into_owned();
    let line = |p: &str| out.lines().find_map(|l| l.strip_prefix(p)).unwrap_or("").to_string();
    let end = match status {
        None => End::Fail { class: "hang".into(), detail: "the run does not come to an end".into() },
        Some(s) if s.code() == Some(0) => End::Pass,
        Some(s) if s.code() == Some(EXIT_FAIL) => End::Fail { class: line("CLASS "), detail: line("DETAIL ") },
        Some(s) if s.code() == Some(EXIT_HARNESS) => End::Harness(line("HARNESS ")),
        Some(s) => {
            let (class, detail) = signal_class(s);
            End::Fail { class, detail: format!("{detail}: {}", last_words(&err)) }
        }
    };
    let _ = fs::remove_file(&err);
    let _ = fs::remove_file(&outp);
    Finished { end, out }
}
static NEXT: AtomicU64 = AtomicU64::new(0);

struct Found {
    run: u64,
    worker: u64,
    class: String,
    detail: String,
    tape: Option<Vec<u64>>,
}

struct Batch {
    runs: u64,
    counts: Vec<u64>,
    distinct: u64,
    samples: Vec<String>,
    found: Option<Found>,
    harness: Option<String>,
    capped: bool,
}

struct Scratch(PathBuf);
impl Scratch {
    fn new(tag: &str) -> Scratch {
        let d = verif().join("scratch").join(format!("{tag}-{}", std::process::id()));
        fs::create_dir_all(&d).expect("harness: scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

struct Kids(Vec<Option<Child>>);
impl Drop for Kids {
    fn drop(&mut self) {
        for c in self.0.iter_mut().flatten() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

fn batch(p: &Prop, seed: u64, total: u64, cap: u64, dir: &Path) -> Batch {
    let n = WORKERS;
    let mut kids = Kids(Vec::new());
    let mut crumbs = Vec::new();
    // (last crumb, cpu then, wall then)
    let mut seen: Vec<(u64, f64, Instant)> = Vec::new();
    let mut idle: Vec<Idle> = (0..n).map(|_| Idle::new()).collect();
    for w in 0..n {
        crumbs.push(Crumb::open(&dir.join(format!("{w}.crumb"))));
        let mut c = Profile::of(w).cmd(&[
            "worker",
            p.id,
            &seed.to_string(),
            &w.to_string(),
            &n.to_string(),
            &total.to_string(),
            dir.to_str().unwrap(),
            &cap.to_string(),
        ]);
        c.stderr(fs::File::create(dir.join(format!("{w}.err"))).unwrap());
        kids.0.push(Some(c.spawn().unwrap_or_else(|e| panic!("harness: cannot start {:?}: {e}", Profile::of(w).exe()))));
        seen.push((0, 0.0, Instant::now()));
    }
    let mut found: Option<Found> = None;
    let mut harness = None;
    while kids.0.iter().any(|k| k.is_some()) {
        std::thread::sleep(Duration::from_millis(25));
        for w in 0..n as usize {
            let Some(kid) = kids.0[w].as_mut() else { continue };
            let at = crumbs[w].word().load(Ordering::SeqCst);
            let mut hit: Option<Found> = None;
            let mut over = false;
            if let Some(status) = kid.try_wait().unwrap() {
                over = true;
                match status.code() {
                    Some(0) => {}
                    Some(EXIT_FAIL) => {
                        let s = fs::read_to_string(dir.join(format!("{w}.fail"))).unwrap_or_default();
                        let mut l = s.lines();
                        hit = Some(Found {
                            run: l.next().unwrap_or("0").parse().unwrap_or(0),
                            worker: w as u64,
                            class: l.next().unwrap_or("").into(),
                            detail: l.next().unwrap_or("").into(),
                            tape: Some(read_tape(&dir.join(format!("{w}.tape")))),
                        });
                    }
                    Some(EXIT_HARNESS) => {
                        harness = Some(fs::read_to_string(dir.join(format!("{w}.harness"))).unwrap_or("worker failed".into()));
                    }
                    _ if at == 0 => harness = Some(format!("worker {w} ended with {status} outside a run")),
                    _ => {
                        let (class, detail) = signal_class(status);
                        let words = last_words(&dir.join(format!("{w}.err")));
                        hit = Some(Found { run: at - 1, worker: w as u64, class, detail: format!("{detail}: {words}"), tape: None });
                    }
                }
            } else {
                let cpu = cpu_seconds(kid.id());
                let idle = idle[w].deadlocked(kid.id());
                if at != seen[w].0 || at == 0 {
                    seen[w] = (at, cpu, Instant::now());
                } else if idle || cpu - seen[w].1 > HANG_CPU || seen[w].2.elapsed().as_secs_f64() > HANG_WALL {
                    let _ = kid.kill();
                    let _ = kid.wait();
                    over = true;
                    hit = Some(Found {
                        run: at - 1,
                        worker: w as u64,
                        class: "hang".into(),
                        detail: "the run does not come to an end".into(),
                        tape: None,
                    });
                } else if found.as_ref().is_some_and(|f| at > f.run) || harness.is_some() {
                    let _ = kid.kill();
                    let _ = kid.wait();
                    over = true;
                }
            }
            if over {
                kids.0[w] = None;
            }
            if let Some(h) = hit {
                if found.as_ref().is_none_or(|f| h.run < f.run) {
                    found = Some(h);
                }
            }
        }
        // runs above the first violation found are of no interest
        if let Some(f) = &found {
            for w in 0..n as usize {
                if let Some(kid) = kids.0[w].as_mut() {
                    if crumbs[w].word().load(Ordering::SeqCst) > f.run {
                        let _ = kid.kill();
                        let _ = kid.wait();
                        kids.0[w] = None;
                    }
                }
            }
        }
    }
    let mut b = Batch { runs: 0, counts: vec![0; ctx::N], distinct: 0, samples: vec![], found, harness, capped: false };
    let mut set = BTreeSet::new();
    for w in 0..n {
        let s = fs::read_to_string(dir.join(format!("{w}.stats"))).unwrap_or_default();
        let mut l = s.lines();
        b.runs += l.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        for (i, v) in l.next().unwrap_or("").split_whitespace().enumerate() {
            b.counts[i] += v.parse::<u64>().unwrap_or(0);
        }
        b.samples.extend(l.map(String::from));
        set.extend(read_tape(&dir.join(format!("{w}.hash"))));
    }
    b.distinct = set.len() as u64;
    b.capped = b.found.is_none() && b.runs < total;
    b
}

struct Known {
    property: String,
    id: String,
    what: String,
}

/// lines `known: property=<id> finding=<name> <what fails>`
fn known_findings() -> Vec<Known> {
    let s = fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let (property, rest) = l.split_once(" finding=")?;
            let (id, what) = rest.split_once(' ')?;
            Some(Known { property: property.into(), id: id.into(), what: what.into() })
        })
        .collect()
}

fn check(p: &Prop, tier: &str) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    println!("{} {tier} seed={seed}: {}", p.id, p.title);
    let start = Instant::now();
    let scratch = Scratch::new(p.id);
    let dir = scratch.0.clone();
    let total = if thorough { p.quick * p.thorough_factor } else { p.quick };
    let total = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(total);
    let cap = if thorough { 5400 } else { 180 };

    // known findings and special single cases first
    let mut status = 0;
    let mut probes = Vec::new();
    let mut violation: Option<(Fail, String, PathBuf)> = None;
    let known = known_findings();
    for (name, _) in p.findings {
        for profile in [Profile::Checked, Profile::Shipped] {
            let f = run_to_end(profile.cmd(&["probe", p.id, name]), &dir, HANG_CPU, HANG_WALL);
            match f.end {
                End::Pass => probes.push(format!("{name} ({}): holds", profile.name())),
                End::Harness(m) => {
                    eprintln!("harness error in probe {name}: {m}");
                    return 2;
                }
                End::Fail { class, detail } => {
                    if let Some(k) = known.iter().find(|k| k.property == p.id && k.id == *name) {
                        println!("KNOWN-FINDING: property={} {} [{} build: {}]", p.id, k.what, profile.name(), detail);
                        probes.push(format!("{name} ({}): known finding", profile.name()));
                    } else {
                        let path = verif().join("replays").join(format!("{}-{name}.txt", p.id));
                        let text = format!(
                            "property: {}\nkind: probe\nprofile: {}\nprobe: {name}\nclass: {class}\ndetail: {detail}\n",
                            p.id,
                            profile.name()
                        );
                        let _ = fs::create_dir_all(path.parent().unwrap());
                        fs::write(&path, text).unwrap();
                        violation.get_or_insert((Fail { class, detail }, format!("probe {name}"), path));
                    }
                }
            }
        }
    }

    let b = batch(p, seed, total, cap, &dir);
    if let Some(h) = &b.harness {
        if b.found.is_none() {
            eprintln!("harness error: {h}");
            return 2;
        }
    }
    if let Some(f) = &b.found {
        match settle(p, Profile::of(f.worker), seed, f, &dir) {
            Ok((class, detail, path)) => violation = Some((Fail { class, detail }, format!("run {}", f.run), path)),
            Err(m) => {
                eprintln!("harness error: run {} ({}: {}) cannot be reproduced: {m}", f.run, f.class, f.detail);
                return 2;
            }
        }
    }
    if let Some((f, at, path)) = &violation {
        println!("violated in {at} of seed {seed}: {}: {}", f.class, f.detail);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        status = 1;
    }
    let mut machines = Vec::new();
    if violation.is_none() && b.found.is_none() {
        let on: Vec<Profile> = FOREIGN.into_iter().filter(|m| m.script().exists() && foreign_wanted(p, thorough, *m)).collect();
        let secs = if thorough { 1200 } else { FOREIGN_SECS };
        let secs = std::env::var("SIM_FOREIGN").ok().and_then(|s| s.parse().ok()).unwrap_or(secs);
        match abroad(p, seed, &on, secs, &dir) {
            Err(h) => {
                eprintln!("harness error: {h}");
                return 2;
            }
            Ok((notes, found)) => {
                machines = notes;
                if let Some((m, f)) = found {
                    match settle(p, m, seed, &f, &dir) {
                        Ok((class, detail, path)) => {
                            println!("violated in run {} of seed {seed} on {}: {class}: {detail}", f.run, m.name());
                            println!("VIOLATION property={} replay={}", p.id, path.display());
                            status = 1;
                        }
                        Err(e) => {
                            eprintln!("harness error: run {} on {} ({}) cannot be reproduced: {e}", f.run, m.name(), f.class);
                            return 2;
                        }
                    }
                }
            }
        }
        for m in &machines {
            println!("{m}");
        }
    }
    let wall = start.elapsed().as_secs_f64();
    evidence(p, tier, seed, &b, total, wall, &probes, &machines, status);
    println!(
        "{}: {} runs, {} distinct, {:.1} s{}",
        p.id,
        b.runs,
        b.distinct,
        wall,
        if b.capped { " (time cap reached)" } else { "" }
    );
    status
}

/// seconds of interpreted runs in the quick check
const FOREIGN_SECS: u64 = 25;

/// Sessions on threads stay at home. The quick check visits the machine on which a property is
/// most at risk: limits and skipping without SSE2 and with 32 bits, doubles with big-endian.
fn foreign_wanted(p: &Prop, thorough: bool, m: Profile) -> bool {
    if thorough || std::env::var_os("SIM_FOREIGN").is_some() {
        !matches!(p.id, "C08" | "C13")
    } else {
        match m {
            Profile::I586 => matches!(p.id, "C07" | "C09" | "C12"),
            _ => p.id == "C02",
        }
    }
}

/// The same workload on other machines. What the interpreter cannot do, and runs that take too
/// long in it, are not held against the code.
fn abroad(p: &Prop, seed: u64, on: &[Profile], secs: u64, dir: &Path) -> Result<(Vec<String>, Option<(Profile, Found)>), String> {
    let mut kids = Kids(Vec::new());
    let mut files = Vec::new();
    let n = if on.is_empty() { 0 } else { WORKERS };
    for w in 0..n {
        let m = on[w as usize % on.len()];
        let mut c = m.cmd(&["foreign", p.id, &seed.to_string(), &w.to_string(), &n.to_string(), &secs.to_string()]);
        let (o, e) = (dir.join(format!("{w}.abroad")), dir.join(format!("{w}.abroad.err")));
        c.stdout(fs::File::create(&o).unwrap()).stderr(fs::File::create(&e).unwrap());
        kids.0.push(Some(c.spawn().expect("harness: spawn")));
        files.push((m, o, e));
    }
    let begin = Instant::now();
    while kids.0.iter().any(|k| k.is_some()) {
        std::thread::sleep(Duration::from_millis(50));
        for k in &mut kids.0 {
            let Some(kid) = k else { continue };
            if kid.try_wait().unwrap().is_some() {
                *k = None;
            } else if begin.elapsed().as_secs() > secs + 90 {
                let _ = kid.kill();
                let _ = kid.wait();
                *k = None;
            }
        }
    }
    let mut found: Option<(Profile, Found)> = None;
    let mut notes = Vec::new();
    for m in on {
        let (mut runs, mut open) = (0, 0);
        for (w, (at, o, e)) in files.iter().enumerate() {
            if at != m {
                continue;
            }
            let out = String::from_utf8_lossy(&fs::read(o).unwrap_or_default()).into_owned();
            let err = String::from_utf8_lossy(&fs::read(e).unwrap_or_default()).into_owned();
            let line = |p: &str| out.lines().rev().find_map(|l| l.strip_prefix(p)).map(String::from);
            runs += out.lines().filter(|l| l.starts_with("PASS ")).count();
            if let Some(h) = line("HARNESS ") {
                return Err(format!("on {}: {h}", m.name()));
            }
            let undefined = err.lines().find(|l| l.contains("error: Undefined Behavior") || l.contains("error: abnormal termination: the program aborted"));
            let run = line("BEGIN ").and_then(|r| r.parse().ok());
            let hit = match (line("CLASS "), undefined, run) {
                (Some(class), _, Some(run)) => Some((run, class, line("DETAIL ").unwrap_or_default())),
                (None, Some(u), Some(run)) => Some((run, "death-exit-1".to_string(), u.to_string())),
                _ => None,
            };
            if let Some((run, class, detail)) = hit {
                if found.as_ref().is_none_or(|(_, f)| run < f.run) {
                    found = Some((*m, Found { run, worker: w as u64, class, detail, tape: None }));
                }
            } else if line("OVER").is_none() {
                open += 1;
            }
        }
        notes.push(format!("{}: {runs} interpreted runs{}", m.name(), if open > 0 { format!(", {open} workers left without an answer") } else { String::new() }));
    }
    Ok((notes, found))
}

/// reproduce, minimise and write the replay file
fn settle(p: &Prop, profile: Profile, seed: u64, f: &Found, dir: &Path) -> Result<(String, String, PathBuf), String> {
    let start = Instant::now();
    let run = f.run.to_string();
    let seed_s = seed.to_string();
    let tape_file = dir.join("case.tape");
    // the run on its own, in a fresh process
    let log = dir.join("case.log");
    let first = run_to_end(
        profile.cmd(&["one", p.id, "seed", &seed_s, &run, log.to_str().unwrap()]),
        dir,
        profile.patience(&f.class).0,
        profile.patience(&f.class).1,
    );
    let End::Fail { class, detail } = first.end else {
        if profile.foreign() {
            return Err(format!("{:?}", first.end));
        }
        return settle_history(p, seed, f, dir);
    };
    let tape = f.tape.clone().unwrap_or_else(|| read_tape(&log));
    write_tape(&tape_file, &tape);
    let again = run_one(p, profile, &tape_file, dir, &class);
    if again != End::Pass && same_class(&again, &class) {
        minimise(p, profile, &tape_file, &class, dir, start);
    } else {
        // the recorded tape does not carry the failure: keep the seed
        return write_replay(p, profile, seed, f.run, &class, &detail, None, dir);
    }
    let tape = read_tape(&tape_file);
    // verify in fresh processes before anything is reported
    for _ in 0..2 {
        if !same_class(&run_one(p, profile, &tape_file, dir, &class), &class) {
            return write_replay(p, profile, seed, f.run, &class, &detail, None, dir);
        }
    }
    write_replay(p, profile, seed, f.run, &class, &detail, Some(tape), dir)
}

fn same_class(e: &End, class: &str) -> bool {
    matches!(e, End::Fail { class: c, .. } if c == class)
}

fn run_one(p: &Prop, profile: Profile, tape: &Path, dir: &Path, class: &str) -> End {
    let (mut cpu, wall) = profile.patience(class);
    if class == "hang" && !profile.foreign() {
        // what is kept is still a hang on a machine that is somewhat faster
        cpu *= 1.5;
    }
    run_to_end(profile.cmd(&["one", p.id, "tape", tape.to_str().unwrap()]), dir, cpu, wall).end
}

/// the failure needs the runs before it: find a short history that reproduces it
fn settle_history(p: &Prop, seed: u64, f: &Found, dir: &Path) -> Result<(String, String, PathBuf), String> {
    let profile = Profile::of(f.worker);
    let mut back = 1;
    loop {
        let first = f.run.saturating_sub(back * WORKERS);
        let first = if f.run < back * WORKERS { f.worker } else { first };
        let args = ["history".to_string(), p.id.into(), seed.to_string(), first.to_string(), WORKERS.to_string(), f.run.to_string()];
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let r = run_to_end(profile.cmd(&a), dir, 120.0, 300.0);
        if let End::Fail { class, detail } = r.end {
            let again = run_to_end(profile.cmd(&a), dir, 120.0, 300.0);
            // the code under test may itself be non-deterministic, so any failure counts
            if !matches!(again.end, End::Fail { .. }) {
                return Err("not deterministic".into());
            }
            let path = verif().join("replays").join(format!("{}-{}-{}.txt", p.id, seed, f.run));
            let _ = fs::create_dir_all(path.parent().unwrap());
            let text = format!(
                "property: {}\nkind: history\nprofile: {}\nseed: {seed}\nfirst: {first}\nstride: {WORKERS}\nrun: {}\nclass: {class}\ndetail: {detail}\n",
                p.id,
                profile.name(),
                f.run
            );
            fs::write(&path, text).map_err(|e| e.to_string())?;
            return Ok((class, detail, path));
        }
        if f.run < back * WORKERS {
            return Err(format!("neither the run nor the history before it fails again ({:?})", r.end));
        }
        back *= 4;
    }
}

fn write_replay(
    p: &Prop,
    profile: Profile,
    seed: u64,
    run: u64,
    class: &str,
    detail: &str,
    tape: Option<Vec<u64>>,
    dir: &Path,
) -> Result<(String, String, PathBuf), String> {
    let path = verif().join("replays").join(format!("{}-{}-{}.txt", p.id, seed, run));
    let _ = fs::create_dir_all(path.parent().unwrap());
    let mut cmd;
    if let Some(t) = &tape {
        let tf = dir.join("final.tape");
        write_tape(&tf, t);
        cmd = profile.cmd(&["one", p.id, "tape", tf.to_str().unwrap()]);
    } else {
        cmd = profile.cmd(&["one", p.id, "seed", &seed.to_string(), &run.to_string(), "-"]);
    }
    cmd.env("SIM_TRACE", "1");
    let r = run_to_end(cmd, dir, profile.patience(class).0, profile.patience(class).1);
    let detail = match &r.end {
        End::Fail { detail, .. } => detail.clone(),
        _ => detail.to_string(),
    };
    let mut s = format!(
        "property: {}\nkind: {}\nprofile: {}\nseed: {seed}\nrun: {run}\nclass: {class}\ndetail: {detail}\n",
        p.id,
        if tape.is_some() { "tape" } else { "seed" },
        profile.name()
    );
    if let Some(t) = &tape {
        let t: Vec<String> = t.iter().map(|v| v.to_string()).collect();
        let _ = writeln!(s, "tape: {}", t.join(" "));
    }
    for l in r.out.lines() {
        if let Some(c) = l.strip_prefix("CASE ") {
            let _ = writeln!(s, "case: {c}");
        } else if let Some(c) = l.strip_prefix("TRACE ") {
            let _ = writeln!(s, "trace: {c}");
        }
    }
    fs::write(&path, s).map_err(|e| e.to_string())?;
    if !matches!(&r.end, End::Fail { class: c, .. } if c == class) {
        return Err(format!("the replay file ended with {:?}", r.end));
    }
    Ok((class.to_string(), detail, path))
}

fn replay(file: &Path) -> i32 {
    let s = fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("{}: {e}", file.display());
        std::process::exit(2)
    });
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix(": "))).unwrap_or("").to_string();
    let p = find(&get("property"));
    let profile = Profile::by_name(&get("profile"));
    let scratch = Scratch::new("replay");
    let (seed, run) = (get("seed"), get("run"));
    let mut cmd = match get("kind").as_str() {
        "tape" => {
            let t: Vec<u64> = get("tape").split_whitespace().map(num).collect();
            let tf = scratch.0.join("tape");
            write_tape(&tf, &t);
            profile.cmd(&["one", p.id, "tape", tf.to_str().unwrap()])
        }
        "seed" => profile.cmd(&["one", p.id, "seed", &seed, &run, "-"]),
        "history" => profile.cmd(&["history", p.id, &seed, &get("first"), &get("stride"), &run]),
        "probe" => profile.cmd(&["probe", p.id, &get("probe")]),
        k => {
            eprintln!("unknown kind {k}");
            return 2;
        }
    };
    cmd.env("SIM_TRACE", "1");
    let (cpu, wall) = profile.patience(&get("class"));
    let r = if get("class") == "hang" { run_to_end(cmd, &scratch.0, cpu, wall) } else { run_to_end(cmd, &scratch.0, cpu * 3.0, wall * 2.0) };
    for l in r.out.lines() {
        println!("{l}");
    }
    match r.end {
        End::Pass => {
            println!("the property holds in this replay");
            0
        }
        End::Harness(m) => {
            println!("harness error: {m}");
            2
        }
        End::Fail { class, detail } => {
            println!("{class}: {detail}");
            if class == get("class") {
                println!("VIOLATION property={} replay={}", p.id, file.display());
                1
            } else {
                println!("a different failure than recorded ({})", get("class"));
                1
            }
        }
    }
}

// ---------------------------------------------------------------------------------------
// minimisation

/// candidate tapes, from coarse to fine
fn candidates(tape: &[u64], block: usize, start: usize) -> Vec<Vec<u64>> {
    let mut out = Vec::new();
    if start >= tape.len() {
        return out;
    }
    let end = (start + block).min(tape.len());
    let mut cut = tape.to_vec();
    cut.drain(start..end);
    out.push(cut);
    if tape[start..end].iter().any(|v| *v != 0) {
        let mut z = tape.to_vec();
        z[start..end].iter_mut().for_each(|v| *v = 0);
        out.push(z);
    }
    if block == 1 && tape[start] > 1 {
        for v in [1, tape[start] / 2, tape[start] - 1] {
            let mut z = tape.to_vec();
            z[start] = v;
            out.push(z);
        }
    }
    out
}

fn shrink(mut tape: Vec<u64>, limit: Duration, tries: usize, mut fails: impl FnMut(&[u64]) -> bool, mut better: impl FnMut(&[u64])) {
    let begin = Instant::now();
    let mut left = tries;
    while tape.last() == Some(&0) {
        tape.pop();
    }
    let mut block = (tape.len() / 2).max(1);
    loop {
        let mut changed = false;
        let mut at = 0;
        while at < tape.len() {
            let mut hit = false;
            for mut c in candidates(&tape, block, at) {
                if begin.elapsed() > limit || left == 0 {
                    return;
                }
                left -= 1;
                while c.last() == Some(&0) {
                    c.pop();
                }
                if c != tape && fails(&c) {
                    tape = c;
                    better(&tape);
                    hit = true;
                    changed = true;
                    break;
                }
            }
            if !hit {
                at += block;
            }
        }
        if block > 1 {
            block /= 2;
        } else if !changed {
            return;
        }
    }
}

/// in-process, for failures that leave the process alive
fn shrink_here(p: &Prop, file: &Path, class: &str, secs: u64) -> i32 {
    let tape = read_tape(file);
    shrink(
        tape,
        Duration::from_secs(secs),
        200_000,
        |c| matches!(exec(p, &mut Tape::replay(c.to_vec())), Run::Fail(f) if f.class == class),
        |best| write_tape(file, best),
    );
    0
}

fn minimise(p: &Prop, profile: Profile, file: &Path, class: &str, dir: &Path, start: Instant) {
    let budget = Duration::from_secs(if class == "hang" || profile.foreign() { 90 } else { 25 });
    if class == "hang" || class.starts_with("death") {
        let tape = read_tape(file);
        let cand = dir.join("candidate.tape");
        shrink(
            tape,
            budget,
            3000,
            |c| {
                write_tape(&cand, c);
                same_class(&run_one(p, profile, &cand, dir, class), class)
            },
            |best| write_tape(file, best),
        );
    } else {
        let backup = read_tape(file);
        let work = dir.join("shrink.tape");
        write_tape(&work, &backup);
        let secs = budget.as_secs().to_string();
        run_to_end(
            profile.cmd(&["shrink", p.id, work.to_str().unwrap(), class, &secs]),
            dir,
            budget.as_secs_f64() + profile.patience(class).0,
            budget.as_secs_f64() + profile.patience(class).1,
        );
        // a candidate may have killed the process: take what was reached if it still fails alone
        if same_class(&run_one(p, profile, &work, dir, class), class) {
            write_tape(file, &read_tape(&work));
        }
    }
    let _ = start;
}

// ---------------------------------------------------------------------------------------
// determinism

fn selftest(p: &Prop, runs: u64) -> i32 {
    let mut lists: Vec<Vec<(u64, String)>> = Vec::new();
    let mut status = 0;
    // preemption between instructions is repeatable within one build only, the two consist
    // of different instructions
    let per_build = p.id == "C13";
    for seed in [1_u64, 7, 123_456_789] {
        lists.clear();
        for n in [1_u64, 8, 8, 3, 5] {
            let scratch = Scratch::new(&format!("self-{}-{n}", p.id));
            let mut kids = Vec::new();
            for w in 0..n {
                // the profile must not matter for the decisions of the simulator either
                let profile = if n == 3 || n == 5 { Profile::Checked } else { Profile::Shipped };
                let mut c = profile.cmd(&[
                    "worker",
                    p.id,
                    &seed.to_string(),
                    &w.to_string(),
                    &n.to_string(),
                    &runs.to_string(),
                    scratch.0.to_str().unwrap(),
                    "3600",
                ]);
                c.env("SIM_HASHES", "1");
                kids.push(c.spawn().unwrap());
            }
            for mut k in kids {
                if !k.wait().unwrap().success() {
                    println!("{}: a worker failed", p.id);
                    status = 2;
                }
            }
            let mut l: Vec<(u64, String)> = Vec::new();
            for w in 0..n {
                for line in fs::read_to_string(scratch.0.join(format!("{w}.all"))).unwrap_or_default().lines() {
                    let (i, h) = line.split_once(' ').unwrap();
                    l.push((num(i), h.to_string()));
                }
            }
            l.sort();
            lists.push(l);
        }
        for (k, l) in lists.iter().enumerate() {
            let base = &lists[if per_build && k >= 3 { 3 } else { 0 }];
            if l != base || l.len() as u64 != runs {
                let d = l.iter().zip(base).find(|(a, b)| a != b);
                println!("{}: seed {seed}: executions differ, first at {:?}", p.id, d);
                status = 2;
            }
        }
    }
    if status == 0 {
        println!("{}: 3 seeds x {runs} runs x 5 layouts (1, 8, 8 processes shipped, 3, 5 checked): identical event hashes", p.id);
    }
    status
}

// ---------------------------------------------------------------------------------------
// evidence

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_list(l: &[String]) -> String {
    let v: Vec<String> = l.iter().map(|s| json_str(s)).collect();
    format!("[{}]", v.join(", "))
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &Prop, tier: &str, seed: u64, b: &Batch, total: u64, wall: f64, probes: &[String], machines: &[String], status: i32) {
    let mut faults = Vec::new();
    let mut sched = Vec::new();
    let mut reach = Vec::new();
    let mut zero = Vec::new();
    for (n, c) in ctx::NAMES.iter().zip(&b.counts) {
        let (group, name) = n.split_once('.').unwrap();
        if group == "sim" {
            continue;
        }
        if *c == 0 {
            if p.expects.iter().any(|e| e == n) {
                zero.push(n.to_string());
            }
            continue;
        }
        let e = format!("{}: {c}", json_str(name));
        match group {
            "fault" => faults.push(e),
            "sched" => sched.push(e),
            _ => reach.push(e),
        }
    }
    let sim_us = b.counts[ctx::C::SimMicros as usize];
    let io = b.counts[ctx::C::IoCalls as usize];
    let samples = if b.samples.is_empty() { vec!["no sample recorded".to_string()] } else { b.samples.iter().take(8).cloned().collect() };
    let mut s = String::from("{\n");
    let _ = writeln!(s, "  \"property\": {},", json_str(p.id));
    let _ = writeln!(s, "  \"tier\": {},", json_str(tier));
    let _ = writeln!(s, "  \"seed\": {seed},");
    let _ = writeln!(s, "  \"level\": \"exploration\",");
    let _ = writeln!(s, "  \"coverage\": {{");
    let _ = writeln!(s, "    \"evaluations\": {},", b.runs);
    let _ = writeln!(s, "    \"distinct_nontrivial\": {},", b.distinct);
    let _ = writeln!(s, "    \"rule\": {},", json_str(&format!("{} Distinct: different 64-bit hash over every I/O call (requested and transferred sizes, faults), scheduling decision and outcome of the run.", p.rule)));
    let _ = writeln!(s, "    \"samples\": {},", json_list(&samples));
    let _ = writeln!(s, "    \"runs_planned\": {total},");
    let _ = writeln!(s, "    \"time_cap_reached\": {},", b.capped);
    let _ = writeln!(s, "    \"runs_per_hour\": {},", (b.runs as f64 / wall * 3600.0) as u64);
    let _ = writeln!(s, "    \"seeds_per_hour\": {},", (b.runs as f64 / wall * 3600.0) as u64);
    let _ = writeln!(s, "    \"seeding\": \"every run has its own 64-bit seed derived from VERIF_SEED, the property and the run number\",");
    let _ = writeln!(s, "    \"simulated_io_calls\": {io},");
    let _ = writeln!(s, "    \"simulated_seconds\": {:.3},", sim_us as f64 / 1e6);
    let _ = writeln!(s, "    \"faults_injected\": {{{}}},", faults.join(", "));
    let _ = writeln!(s, "    \"scheduling_events\": {{{}}},", sched.join(", "));
    let _ = writeln!(s, "    \"reach_probes\": {{{}}},", reach.join(", "));
    let _ = writeln!(s, "    \"probes_at_zero\": {},", json_list(&zero));
    let _ = writeln!(s, "    \"finding_probes\": {},", json_list(probes));
    let _ = writeln!(s, "    \"builds\": \"half of the runs with overflow checks and debug assertions, half as shipped (optimised, unchecked)\",");
    let _ = writeln!(s, "    \"other_machines\": {},", json_list(machines));
    let _ = writeln!(s, "    \"real_components\": {},", json_str(p.real));
    let _ = writeln!(s, "    \"stub_components\": {}", json_str(p.stub));
    let _ = writeln!(s, "  }},");
    let _ = writeln!(s, "  \"assumptions\": {},", json_list(&p.assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()));
    let _ = writeln!(s, "  \"wall_s\": {wall:.2},");
    let _ = writeln!(s, "  \"violations\": {}", (status != 0) as u32);
    s.push_str("}\n");
    let dir = verif().join("evidence");
    let _ = fs::create_dir_all(&dir);
    let mut f = fs::File::create(dir.join(format!("{}.json", p.id))).expect("harness: evidence");
    f.write_all(s.as_bytes()).expect("harness: evidence");
}
