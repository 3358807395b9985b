//! Memory sources end exactly at an unmapped page: a read beyond the slice kills the process.

#[cfg(not(miri))]
pub use mapped::GuardBuf;

/// an interpreter notices accesses beyond an allocation by itself
#[cfg(miri)]
pub struct GuardBuf(Box<[u8]>);
#[cfg(miri)]
impl GuardBuf {
    pub fn new(data: &[u8]) -> GuardBuf {
        GuardBuf(data.into())
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
}

#[cfg(not(miri))]
mod mapped {
use std::cell::RefCell;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}
const PAGE: usize = 4096;

struct Map {
    base: *mut u8,
    cap: usize,
}

impl Drop for Map {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base, self.cap + PAGE);
        }
    }
}

impl Map {
    fn new(cap: usize) -> Map {
        let cap = cap.max(1).next_multiple_of(PAGE);
        unsafe {
            // reserve inaccessible, then make all but the last page accessible
            let base = mmap(std::ptr::null_mut(), cap + PAGE, 0, 0x22, -1, 0);
            assert!(base as isize != -1, "mmap");
            let p = mmap(base, cap, 3, 0x32, -1, 0);
            assert!(p == base, "mmap fixed");
            Map { base, cap }
        }
    }
}

thread_local! {
    static POOL: RefCell<Vec<Map>> = const { RefCell::new(Vec::new()) };
}

pub struct GuardBuf {
    map: Option<Map>,
    len: usize,
}

impl GuardBuf {
    pub fn new(data: &[u8]) -> GuardBuf {
        let map = POOL
            .with(|p| {
                let mut p = p.borrow_mut();
                let i = p.iter().position(|m| m.cap >= data.len())?;
                Some(p.swap_remove(i))
            })
            .unwrap_or_else(|| Map::new(data.len().max(64 * 1024)));
        unsafe {
            std::ptr::copy_nonoverlapping(data.as_ptr(), map.base.add(map.cap - data.len()), data.len());
        }
        GuardBuf { map: Some(map), len: data.len() }
    }
    pub fn as_slice(&self) -> &[u8] {
        let m = self.map.as_ref().unwrap();
        unsafe { std::slice::from_raw_parts(m.base.add(m.cap - self.len), self.len) }
    }
}

impl Drop for GuardBuf {
    fn drop(&mut self) {
        if let Some(m) = self.map.take() {
            let _ = POOL.try_with(|p| {
                let mut p = p.borrow_mut();
                if p.len() < 4 {
                    p.push(m)
                }
            });
        }
    }
}
}
