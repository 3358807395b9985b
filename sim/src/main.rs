//! Deterministic simulation of compact-thrift. See /verif/DESIGN.md.
mod alloc;
mod corrupt;
mod ctx;
mod guard;
mod io;
mod model;
#[cfg_attr(miri, path = "preempt_none.rs")]
mod preempt;
mod props;
mod runner;
mod sched;
mod tape;
mod types;

#[global_allocator]
static ALLOCATOR: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(runner::main(&args));
}
