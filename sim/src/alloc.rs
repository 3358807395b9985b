//! The simulated allocator: the process-wide allocator of the simulator. Allocations made
//! while a thread runs code under test ("tracked") are counted, poisoned, surrounded by red
//! zones and can be made to fail; everything else passes through.

use crate::preempt;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;

const LIVE: u32 = 0x5117_A110;
const FREED: u32 = 0xDEAD_F4EE;
const TAIL: u64 = 0xC0FF_EE00_D15E_A5E5;
const FILL_LIMIT: usize = 64 * 1024;
/// no single tracked allocation may exceed this, so hostile inputs cannot eat the machine
pub const HARD_CAP: usize = 192 * 1024 * 1024;

#[repr(C)]
struct Header {
    magic: u32,
    tracked: u32,
    size: usize,
}

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    static LIVE_COUNT: Cell<i64> = const { Cell::new(0) };
    static MAX_REQUEST: Cell<usize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BUDGET: Cell<usize> = const { Cell::new(HARD_CAP) };
    static REFUSED: Cell<u64> = const { Cell::new(0) };
}

#[derive(Debug, Clone, Copy, PartialEq, Default)]
pub struct Report {
    pub live_bytes: i64,
    pub live_count: i64,
    pub max_request: usize,
    pub total: u64,
    pub peak: i64,
    pub refused: u64,
}

pub fn report() -> Report {
    Report {
        live_bytes: LIVE_BYTES.get(),
        live_count: LIVE_COUNT.get(),
        max_request: MAX_REQUEST.get(),
        total: TOTAL.get(),
        peak: PEAK.get(),
        refused: REFUSED.get(),
    }
}

/// forget everything measured so far on this thread
pub fn reset() {
    LIVE_BYTES.set(0);
    LIVE_COUNT.set(0);
    MAX_REQUEST.set(0);
    TOTAL.set(0);
    PEAK.set(0);
    REFUSED.set(0);
    BUDGET.set(HARD_CAP);
}

/// tracked allocations above `bytes` fail
pub fn set_budget(bytes: usize) {
    BUDGET.set(bytes.min(HARD_CAP));
}

/// until the next `reset`: grant more than the hard cap (memory that is not touched is free)
pub fn set_limit(bytes: usize) {
    BUDGET.set(bytes.max(HARD_CAP));
}

struct Restore(bool);
impl Drop for Restore {
    fn drop(&mut self) {
        preempt::pause();
        TRACK.set(self.0);
        if self.0 {
            preempt::resume();
        }
    }
}

pub fn is_tracked() -> bool {
    TRACK.get()
}

/// run code under test
pub fn tracked<T>(f: impl FnOnce() -> T) -> T {
    let _r = Restore(TRACK.replace(true));
    preempt::resume();
    f()
}

/// run simulator code from inside code under test (I/O callbacks)
pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
    preempt::pause();
    let _r = Restore(TRACK.replace(false));
    f()
}

fn offset(align: usize) -> usize {
    align.max(16)
}

fn die(msg: &str) -> ! {
    TRACK.set(false);
    use std::io::Write;
    let _ = std::io::stderr().write_all(msg.as_bytes());
    std::process::abort()
}

struct Stepping;
impl Stepping {
    fn pause() -> Option<Stepping> {
        if TRACK.try_with(|t| t.get()).unwrap_or(false) {
            preempt::pause();
            return Some(Stepping);
        }
        None
    }
}
impl Drop for Stepping {
    fn drop(&mut self) {
        preempt::resume();
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let _s = Stepping::pause();
        let tracked = TRACK.try_with(|t| t.get()).unwrap_or(false);
        let size = layout.size();
        if tracked {
            if size > MAX_REQUEST.get() {
                MAX_REQUEST.set(size);
            }
            if size > BUDGET.get() {
                REFUSED.set(REFUSED.get() + 1);
                return std::ptr::null_mut();
            }
        }
        let off = offset(layout.align());
        let Ok(full) = Layout::from_size_align(size + off + 8, layout.align().max(16)) else {
            return std::ptr::null_mut();
        };
        let base = System.alloc(full);
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        let h = p.sub(16).cast::<Header>();
        h.write(Header { magic: LIVE, tracked: tracked as u32, size });
        p.add(size).cast::<u64>().write_unaligned(TAIL);
        if tracked {
            if !cfg!(miri) {
                p.write_bytes(0xA5, size.min(FILL_LIMIT));
            }
            LIVE_BYTES.set(LIVE_BYTES.get() + size as i64);
            LIVE_COUNT.set(LIVE_COUNT.get() + 1);
            TOTAL.set(TOTAL.get() + size as u64);
            if LIVE_BYTES.get() > PEAK.get() {
                PEAK.set(LIVE_BYTES.get());
            }
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let _s = Stepping::pause();
        let h = p.sub(16).cast::<Header>();
        let header = h.read();
        if header.magic != LIVE {
            die("SIMALLOC: released memory that is not allocated (double free or corrupted header)\n");
        }
        if header.size != layout.size() {
            die("SIMALLOC: released with a different size than allocated\n");
        }
        if p.add(header.size).cast::<u64>().read_unaligned() != TAIL {
            die("SIMALLOC: write behind the end of an allocation\n");
        }
        if header.tracked != 0 {
            if !cfg!(miri) {
                p.write_bytes(0xDD, header.size.min(FILL_LIMIT));
            }
            let _ = LIVE_BYTES.try_with(|c| c.set(c.get() - header.size as i64));
            let _ = LIVE_COUNT.try_with(|c| c.set(c.get() - 1));
        }
        (*h).magic = FREED;
        let off = offset(layout.align());
        System.dealloc(
            p.sub(off),
            Layout::from_size_align_unchecked(layout.size() + off + 8, layout.align().max(16)),
        );
    }
}
