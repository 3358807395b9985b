//! Preemption between any two instructions of the code under test, by two means:
//!
//! * Stepping: the trap flag of the processor makes every instruction of a thread raise
//!   SIGTRAP in that thread; the handler counts the ones that belong to this program (not
//!   those of the C library, whose number depends on addresses) and calls the scheduler when
//!   a seeded distance is used up.
//! * Watching: the writable globals of the program are inaccessible while code under test
//!   runs. An access raises SIGSEGV, which is a scheduling point, before the access and by
//!   stepping shortly after it. Code without hidden shared state never gets there.
//!
//! Only code inside `alloc::tracked` is concerned, and neither the allocator nor the
//! simulator.

use crate::alloc;
use crate::ctx::{self, C};
use std::arch::asm;
use std::cell::Cell;
use std::sync::Once;

const TRAP_FLAG: i64 = 0x100;
const RIP: usize = 16;
const FLAGS: usize = 17;
const SIGTRAP: i32 = 5;
const SIGSEGV: i32 = 11;

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn mprotect(addr: usize, len: usize, prot: i32) -> i32;
    fn usleep(micros: u32) -> i32;
    static __executable_start: u8;
    static etext: u8;
    static __data_start: u8;
    static end: u8;
}

#[derive(Clone, Copy, PartialEq)]
pub enum Point {
    /// the distance is used up
    Distance,
    /// global state is about to be accessed
    Access,
}

type Hook = unsafe fn(*mut (), Point) -> u64;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    /// instructions of this program that may still be counted on this thread
    static BUDGET: Cell<u64> = const { Cell::new(0) };
    static HOOK: Cell<Option<(Hook, *mut ())>> = const { Cell::new(None) };
    /// accesses to globals that may still be reported, 0: they are accessible
    static WATCH: Cell<u64> = const { Cell::new(0) };
    /// one access is let through, then they become inaccessible again
    static PASSING: Cell<bool> = const { Cell::new(false) };
}

fn globals() -> (usize, usize) {
    let (a, b) = (&raw const __data_start as usize, &raw const end as usize);
    (a & !4095, b.next_multiple_of(4096))
}

fn protect(on: bool) {
    let (a, b) = globals();
    unsafe {
        mprotect(a, b - a, if on { 0 } else { 3 });
    }
}

unsafe fn registers(context: *mut u8) -> *mut i64 {
    // ucontext_t: flags, link and stack come before the registers
    context.add(40).cast()
}

unsafe fn call_hook(p: Point) -> u64 {
    ARMED.set(false);
    let next = alloc::untracked(|| {
        ctx::count(if p == Point::Access { C::Global } else { C::Preempt });
        let (f, arg) = HOOK.get().expect("harness: no hook");
        f(arg, p)
    });
    if next > 0 && BUDGET.get() > 0 {
        LEFT.set(next);
        ARMED.set(true);
    }
    next
}

unsafe extern "C" fn on_trap(_sig: i32, _info: *mut u8, context: *mut u8) {
    let regs = registers(context);
    let off = |regs: *mut i64| *regs.add(FLAGS) &= !TRAP_FLAG;
    if PASSING.get() {
        PASSING.set(false);
        if WATCH.get() > 0 && alloc::is_tracked() {
            protect(true);
        }
    }
    if !ARMED.get() || !alloc::is_tracked() {
        return off(regs);
    }
    let ip = *regs.add(RIP) as usize;
    if ip < &raw const __executable_start as usize || ip >= &raw const etext as usize {
        return;
    }
    let budget = BUDGET.get();
    if budget == 0 {
        ARMED.set(false);
        return off(regs);
    }
    BUDGET.set(budget - 1);
    let left = LEFT.get();
    if left > 1 {
        return LEFT.set(left - 1);
    }
    call_hook(Point::Distance);
    if !ARMED.get() {
        off(regs);
    }
}

unsafe extern "C" fn on_fault(_sig: i32, info: *mut u8, context: *mut u8) {
    let addr = *info.add(16).cast::<usize>();
    let (a, b) = globals();
    if !(a..b).contains(&addr) {
        // a real one
        protect(false);
        sigaction(SIGSEGV, (&raw const OLD).cast(), std::ptr::null_mut());
        return;
    }
    thread_local!(static SPINS: Cell<u32> = const { Cell::new(0) });
    let watch = WATCH.get();
    if watch == 0 {
        // a thread of the simulator: the one that is under test will come to an end, or is
        // blocked
        SPINS.set(SPINS.get() + 1);
        if SPINS.get() % 1000 == 0 {
            protect(false);
        } else {
            usleep(100);
        }
        return;
    }
    WATCH.set(watch - 1);
    call_hook(Point::Access);
    protect(false);
    PASSING.set(true);
    *registers(context).add(FLAGS) |= TRAP_FLAG;
}

static mut OLD: SigAction = SigAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };

fn install() {
    static INSTALL: Once = Once::new();
    INSTALL.call_once(|| unsafe {
        let mut a = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        assert_eq!(sigaction(SIGTRAP, &a, std::ptr::null_mut()), 0, "harness: sigaction");
        a.handler = on_fault as *const () as usize;
        // SA_NODEFER: the hook may itself run into a real fault
        a.flags |= 0x4000_0000;
        assert_eq!(sigaction(SIGSEGV, &a, &raw mut OLD), 0, "harness: sigaction");
    });
}

/// While `f` runs on this thread, `hook` is called between two instructions of the code
/// under test when the distance given to `arm` or returned by the last call is used up, for
/// at most `budget` instructions, and at up to `watch` accesses to global state.
pub fn with<H: FnMut(Point) -> u64, T>(hook: H, budget: u64, watch: u64, f: impl FnOnce() -> T) -> T {
    install();
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            ARMED.set(false);
            HOOK.set(None);
            WATCH.set(0);
        }
    }
    unsafe fn call<H: FnMut(Point) -> u64>(p: *mut (), at: Point) -> u64 {
        (*p.cast::<H>())(at)
    }
    let mut hook = hook;
    let _r = Reset;
    HOOK.set(Some((call::<H>, (&raw mut hook).cast())));
    BUDGET.set(budget);
    WATCH.set(watch);
    f()
}

/// the number of instructions of the code under test that `f` takes, counted up to `limit`
pub fn counted<T>(limit: u64, f: impl FnOnce() -> T) -> (u64, T) {
    let mut left = 0;
    let x = with(|_| 0, limit, 0, || {
        arm(u64::MAX);
        let x = f();
        left = BUDGET.get();
        x
    });
    (limit - left, x)
}

/// let the hook be called after `distance` instructions of the code under test
pub fn arm(distance: u64) {
    if distance > 0 && HOOK.get().is_some() && BUDGET.get() > 0 {
        LEFT.set(distance);
        ARMED.set(true);
    }
}

/// no more preemption on this thread, an abandoned session is being unwound
pub fn stop() {
    ARMED.set(false);
    BUDGET.set(0);
    if WATCH.replace(0) > 0 {
        protect(false);
    }
}

/// simulator code follows
#[inline(always)]
pub fn pause() {
    if ARMED.get() {
        unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
    }
    if WATCH.get() > 0 {
        protect(false);
    }
}

/// code under test follows
#[inline(always)]
pub fn resume() {
    if WATCH.get() > 0 {
        protect(true);
    }
    if ARMED.get() {
        unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    }
}
