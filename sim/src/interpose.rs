#![allow(invalid_runtime_symbol_definitions)]
//! libc symbols the library reaches through std, served by the simulator.
use libc::{c_char, c_int, c_long, c_void};
use simrt::{disk, out, sched, sys};

fn ret(r: i64) -> i64 {
    if r < 0 {
        sys::set_errno(-r as i32);
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    simrt::clock::tick(g)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(s: *mut u32, e: *mut u32) {
    simrt::clock::init(s, e)
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
// Stores. What threads share without locks are statics.
#[inline(always)]
unsafe fn store(a: *const u8) {
    if a >= &raw const __data_start && a < &raw const _end {
        sched::static_store();
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_store1(a: *const u8) {
    store(a)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_store2(a: *const u8) {
    store(a)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_store4(a: *const u8) {
    store(a)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_store8(a: *const u8) {
    store(a)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_store16(a: *const u8) {
    store(a)
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: u32) -> c_int {
    let s = std::ffi::CStr::from_ptr(p).to_bytes();
    if let Some(r) = disk::open(s) {
        return ret(r) as c_int;
    }
    if let Some(r) = out::create(s, fl) {
        return ret(r) as c_int;
    }
    sys::call(libc::SYS_openat, -100, p as i64, fl as i64, mode as i64, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: u32, b: *mut libc::statx) -> c_int {
    if !p.is_null() {
        match disk::exists(std::ffi::CStr::from_ptr(p).to_bytes()) {
            Some(true) => {
                std::ptr::write_bytes(b, 0, 1);
                (*b).stx_mask = libc::STATX_BASIC_STATS;
                (*b).stx_mode = (libc::S_IFREG | 0o644) as u16;
                return 0;
            }
            Some(false) => return ret(-(libc::ENOENT as i64)) as c_int,
            None => {}
        }
    }
    sys::call(libc::SYS_statx, d as i64, p as i64, fl as i64, mask as i64, b as i64, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, fl: c_int, mode: u32) -> c_int {
    open64(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    if let Some(r) = disk::read(fd, b as *mut u8, n) {
        return ret(r) as isize;
    }
    sys::call(libc::SYS_read, fd as i64, b as i64, n as i64, 0, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    if let Some(r) = out::write(fd, std::slice::from_raw_parts(if n == 0 { std::ptr::dangling() } else { b as *const u8 }, n)) {
        return ret(r) as isize;
    }
    sys::call(libc::SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if disk::is_sim(fd) {
        // a legal short read: fill the first non-empty buffer
        for i in 0..n {
            let v = &*iov.add(i as usize);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    sys::call(libc::SYS_readv, fd as i64, iov as i64, n as i64, 0, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: usize, off: i64) -> isize {
    if let Some(r) = disk::pread(fd, b as *mut u8, n, off as u64) {
        return ret(r) as isize;
    }
    sys::call(libc::SYS_pread64, fd as i64, b as i64, n as i64, off, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, w: c_int) -> i64 {
    if let Some(r) = disk::seek(fd, off, w) {
        return ret(r);
    }
    sys::call(libc::SYS_lseek, fd as i64, off, w as i64, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, w: c_int) -> i64 {
    lseek64(fd, off, w)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    disk::close(fd);
    out::close(fd);
    sys::call(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    let r = sys::call(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0) as c_int;
    if r >= 0 && (cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC) {
        disk::dup(fd, r);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
unsafe fn fill_random(b: *mut u8, n: usize) {
    let mut r = simrt::rng::Rng::new(sched::hash_seed());
    for i in 0..n {
        *b.add(i) = r.u8();
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: usize, _f: u32) -> isize {
    fill_random(b as *mut u8, n);
    n as isize
}
/// std blocks through syscall(SYS_futex, ...).
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    match n {
        libc::SYS_futex => {
            if let Some(r) = sched::futex(a as usize, b as c_int, c as u32, d != 0) {
                return ret(r);
            }
        }
        libc::SYS_getrandom => {
            fill_random(a as *mut u8, b as usize);
            return b;
        }
        _ => {}
    }
    sys::call(n, a, b, c, d, e, f)
}
