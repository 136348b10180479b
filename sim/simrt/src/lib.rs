//! Simulator runtime: clock, scheduler, allocator and disk that stand in for the real ones.
pub mod alloc;
pub mod clock;
pub mod disk;
pub mod out;
pub mod rng;
pub mod sched;
pub mod sys;

/// Exit codes of a worker process whose scenario could not return.
pub const EXIT_HANG: i32 = 77;
pub const EXIT_MEM: i32 = 78;
pub const EXIT_DEADLOCK: i32 = 79;
pub const EXIT_HEAP: i32 = 80;

/// Emit a message with a raw write (no allocation) and end the process.
pub fn die(code: i32, msg: &str) -> ! {
    sys::write_all(2, msg.as_bytes());
    sys::write_all(2, b"\n");
    unsafe { libc::_exit(code) }
}
