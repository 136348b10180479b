//! Raw system calls, so that the simulator's own needs never pass through the interposed symbols.
use std::arch::asm;

pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

/// System call with C conventions (-1 and errno).
pub unsafe fn call(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { raw(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if r == -(libc::EINTR as i64) {
            continue;
        }
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}

pub fn futex_wait(addr: &std::sync::atomic::AtomicU32, val: u32) {
    unsafe {
        raw(libc::SYS_futex, addr as *const _ as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0, 0, 0);
    }
}

pub fn futex_wake(addr: &std::sync::atomic::AtomicU32) {
    unsafe {
        raw(libc::SYS_futex, addr as *const _ as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, i32::MAX as i64, 0, 0, 0);
    }
}

/// Real monotonic time in nanoseconds (reporting only, never seen by the system under test).
pub fn wall_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { raw(libc::SYS_clock_gettime, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}
