//! Under an interpreter there is nothing to step with: no preemption between instructions.

#[derive(Clone, Copy, PartialEq)]
#[allow(dead_code)]
pub enum Point {
    Distance,
    Access,
}

pub fn with<H: FnMut(Point) -> u64, T>(_hook: H, _budget: u64, _watch: u64, f: impl FnOnce() -> T) -> T {
    f()
}
pub fn counted<T>(_limit: u64, f: impl FnOnce() -> T) -> (u64, T) {
    (0, f())
}
pub fn arm(_distance: u64) {}
pub fn stop() {}
pub fn pause() {}
pub fn resume() {}
