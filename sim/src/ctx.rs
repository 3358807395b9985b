//! Counters, event hash and trace of the current run. None of this draws from the tape.

use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

macro_rules! counters {
    ($($id:ident = $name:literal),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy)]
        pub enum C { $($id),* }
        pub const NAMES: &[&str] = &[$($name),*];
    };
}
counters! {
    ShortRead = "fault.short_read",
    EintrRead = "fault.interrupted_read",
    ErrRead = "fault.read_error",
    EofRead = "fault.premature_eof",
    PanicRead = "fault.source_panic",
    ShortWrite = "fault.short_write",
    EintrWrite = "fault.interrupted_write",
    ErrWrite = "fault.write_error",
    ZeroWrite = "fault.write_zero",
    PanicWrite = "fault.sink_panic",
    FullWrite = "fault.sink_full",
    ErrSeek = "fault.seek_error",
    BitFlip = "fault.bit_flip",
    Overwrite = "fault.range_overwritten",
    LostRange = "fault.range_lost",
    DupRange = "fault.range_duplicated",
    SwapRange = "fault.ranges_swapped",
    InsertRange = "fault.bytes_inserted",
    Truncated = "fault.truncated",
    Bomb = "fault.nesting_bomb",
    LenClaim = "fault.hostile_length",
    BadText = "fault.invalid_text",
    AllocFail = "fault.allocation_refused",
    FieldLost = "fault.field_lost",
    FieldDup = "fault.field_duplicated",
    FieldReorder = "fault.field_reordered",
    FieldRetype = "fault.field_retyped",
    UnionFault = "fault.union_corrupted",
    Appended = "fault.concurrent_append",
    FileTruncated = "fault.concurrent_truncate",
    TornSector = "fault.torn_sector",
    LostSector = "fault.lost_sector",
    Crash = "fault.writer_crash",
    FooterFault = "fault.footer_corrupted",
    LocFault = "fault.index_location_corrupted",
    IndexFault = "fault.index_bytes_corrupted",
    Reset = "fault.connection_reset",
    Stall = "fault.link_stall",
    Abandon = "fault.session_abandoned",
    OwnerDrop = "sched.owner_dropped_during_read",
    Switch = "sched.context_switch",
    Preempt = "sched.preempted_between_instructions",
    Global = "sched.at_access_to_global_state",
    Rescue = "sched.blocked_on_a_lock",
    Nested = "sched.nested_session",
    Delivery = "sched.segment_delivered",
    SliceSource = "probe.memory_source",
    StreamSource = "probe.stream_source",
    Adapter = "probe.std_adapter",
    Custom = "probe.custom_input_or_output",
    BufferReuse = "probe.buffer_reused_for_another_message",
    Counted = "probe.instructions_counted",
    LongId = "probe.long_field_id",
    LongList = "probe.list_of_15_or_more",
    Alternative = "probe.alternative_encoding",
    UnknownField = "probe.unknown_field",
    UnknownNearEnd = "probe.unknown_integer_near_end_of_slice",
    BigMessage = "probe.message_over_64k",
    LimitHit = "probe.length_limit_reached",
    LimitExceeded = "probe.length_limit_exceeded",
    DecodedOk = "probe.corrupted_still_decodes",
    DecodedErr = "probe.rejected",
    Retry = "probe.retry_after_failure",
    SharedHit = "probe.shared_while_filled",
    SharedFree = "probe.unshared_when_filled",
    FooterOk = "probe.footer_found",
    FooterErr = "probe.footer_rejected",
    NewFooter = "probe.footer_changed_during_call",
    HugeFile = "probe.position_beyond_2g",
    IndexOk = "probe.page_index_read",
    IndexErr = "probe.page_index_rejected",
    IndexNone = "probe.no_page_index",
    SimMicros = "sim.microseconds",
    IoCalls = "sim.io_calls",
    Unspecified = "probe.reference_leaves_open",
}

pub const N: usize = NAMES.len();
static COUNTS: [AtomicU64; N] = [const { AtomicU64::new(0) }; N];
static HASH: AtomicU64 = AtomicU64::new(0);
static TRIVIAL: AtomicBool = AtomicBool::new(true);
static TRACING: AtomicBool = AtomicBool::new(false);
static TRACE: Mutex<Vec<String>> = Mutex::new(Vec::new());
static SAMPLE: Mutex<String> = Mutex::new(String::new());
static SAMPLING: AtomicBool = AtomicBool::new(false);

pub fn count(c: C) {
    COUNTS[c as usize].store(COUNTS[c as usize].load(Relaxed) + 1, Relaxed);
}
pub fn add(c: C, n: u64) {
    COUNTS[c as usize].store(COUNTS[c as usize].load(Relaxed) + n, Relaxed);
}
pub fn counts() -> Vec<u64> {
    COUNTS.iter().map(|c| c.load(Relaxed)).collect()
}

/// mix an event into the trajectory hash of the run
pub fn event(e: u64) {
    let h = HASH.load(Relaxed);
    let h = (h ^ e).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    HASH.store(h ^ (h >> 29), Relaxed);
}
pub fn hash() -> u64 {
    HASH.load(Relaxed)
}
/// mark the run as non-trivial
pub fn nontrivial() {
    TRIVIAL.store(false, Relaxed);
}
pub fn is_trivial() -> bool {
    TRIVIAL.load(Relaxed)
}
pub fn begin_run() {
    HASH.store(0, Relaxed);
    TRIVIAL.store(true, Relaxed);
}
pub fn set_tracing(on: bool) {
    TRACING.store(on, Relaxed);
    TRACE.lock().unwrap_or_else(|e| e.into_inner()).clear();
}
pub fn trace(f: impl FnOnce() -> String) {
    if TRACING.load(Relaxed) {
        crate::alloc::untracked(|| {
            let mut t = TRACE.lock().unwrap_or_else(|e| e.into_inner());
            if t.len() < 4000 {
                let s = f();
                t.push(s);
            }
        })
    }
}
pub fn take_trace() -> Vec<String> {
    std::mem::take(&mut TRACE.lock().unwrap_or_else(|e| e.into_inner()))
}
pub fn set_sampling(on: bool) {
    SAMPLING.store(on, Relaxed);
}
/// one-line description of the case, for evidence and replay files
pub fn describe(f: impl FnOnce() -> String) {
    if SAMPLING.load(Relaxed) || TRACING.load(Relaxed) {
        crate::alloc::untracked(|| {
            let s = f();
            let mut g = SAMPLE.lock().unwrap_or_else(|e| e.into_inner());
            g.clear();
            g.push_str(&s);
        })
    }
}
pub fn take_sample() -> String {
    std::mem::take(&mut SAMPLE.lock().unwrap_or_else(|e| e.into_inner()))
}

/// A violation of the property under check.
#[derive(Debug)]
pub struct Fail {
    pub class: String,
    pub detail: String,
}
pub type Check = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($class:expr, $($t:tt)*) => {
        return Err($crate::ctx::Fail { class: $class.to_string(), detail: format!($($t)*) })
    };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($t:tt)*) => {
        if !$cond {
            $crate::fail!($class, $($t)*);
        }
    };
}
