//! Simulated disk: files under /simfs/ with a fault plan. File descriptors are real memfds (so stat works),
//! their read and seek calls are served here.
use crate::rng::Rng;
use std::sync::atomic::{AtomicBool, Ordering::*};

pub const PREFIX: &[u8] = b"/simfs/";

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// reads return at most a bytes
    ShortMax,
    /// reads return 1..=a bytes, random with seed b
    ShortRand,
    /// b reads from the a-th one are interrupted
    Eintr,
    /// each read interrupted with probability a/1000 (at most 3 in a row), seed b
    EintrRand,
    /// b reads from the a-th fail with errno c
    ReadErr,
    /// reads starting in [a, b) fail with EIO, c times (earlier reads stop short of it)
    BadRange,
    /// b seeks from the a-th fail with errno c
    SeekErr,
    /// b opens from the a-th fail with errno c
    OpenErr,
    /// from the a-th read on, the file is only b bytes long
    Shrink,
}

#[derive(Clone, Debug)]
pub struct Fault {
    pub kind: Kind,
    pub a: u64,
    pub b: u64,
    pub c: u64,
}

pub struct SimFile {
    pub name: String,
    pub data: Vec<u8>,
    faults: Vec<(Fault, Rng, u64)>,
    pub reads: u64,
    pub seeks: u64,
    pub opens: u64,
    pub bytes: u64,
}

#[derive(Default, Clone, Debug)]
pub struct Counts {
    pub short: u64,
    pub eintr: u64,
    pub read_err: u64,
    pub bad_range: u64,
    pub seek_err: u64,
    pub open_err: u64,
    pub shrink: u64,
}
impl Counts {
    pub fn total_errors(&self) -> u64 {
        self.read_err + self.bad_range + self.seek_err + self.open_err + self.shrink
    }
}

struct Fd {
    file: usize,
    pos: u64,
    /// shared with duplicates
    same: i32,
}

struct Disk {
    files: Vec<SimFile>,
    fds: Vec<Option<Fd>>,
    open_fds: i64,
    counts: Counts,
    log: Vec<(u8, u64, u64, i64)>,
    log_on: bool,
}

static LOCK: AtomicBool = AtomicBool::new(false);
static mut D: Option<Box<Disk>> = None;

fn with<R>(f: impl FnOnce(&mut Disk) -> R) -> R {
    let was = crate::alloc::in_lib();
    crate::alloc::set_in_lib(false);
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    #[allow(static_mut_refs)]
    let d = unsafe {
        D.get_or_insert_with(|| {
            Box::new(Disk { files: vec![], fds: (0..4096).map(|_| None).collect(), open_fds: 0, counts: Counts::default(), log: vec![], log_on: false })
        })
    };
    let r = f(d);
    LOCK.store(false, Release);
    crate::alloc::set_in_lib(was);
    r
}

/// Forget all files (descriptors stay until closed).
pub fn reset() {
    with(|d| {
        d.files.clear();
        d.counts = Counts::default();
        d.log.clear();
        for f in d.fds.iter_mut() {
            *f = None;
        }
        d.open_fds = 0;
    })
}
pub fn put(name: &str, data: Vec<u8>) {
    with(|d| {
        if d.open_fds == 0 {
            d.files.retain(|f| f.name != name);
        }
        // open descriptors keep what they opened
        for f in d.files.iter_mut() {
            if f.name == name {
                f.name = String::new();
            }
        }
        d.files.push(SimFile { name: name.to_string(), data, faults: vec![], reads: 0, seeks: 0, opens: 0, bytes: 0 });
    })
}
/// Install a fault plan; operation numbers count from now.
pub fn set_faults(name: &str, faults: &[Fault]) {
    with(|d| {
        for f in d.files.iter_mut().filter(|f| f.name == name) {
            f.faults = faults.iter().map(|x| (x.clone(), Rng::new(x.b ^ 0x5151), 0)).collect();
            f.reads = 0;
            f.seeks = 0;
            f.opens = 0;
        }
    })
}
pub fn clear_faults() {
    with(|d| {
        for f in d.files.iter_mut() {
            f.faults.clear();
        }
    })
}
pub fn counts() -> Counts {
    with(|d| d.counts.clone())
}
/// (reads, seeks, opens) since the plan was installed.
pub fn ops(name: &str) -> (u64, u64, u64) {
    with(|d| d.files.iter().find(|f| f.name == name).map(|f| (f.reads, f.seeks, f.opens)).unwrap_or((0, 0, 0)))
}
pub fn open_fds() -> i64 {
    with(|d| d.open_fds)
}
pub fn log(on: bool) {
    with(|d| {
        d.log_on = on;
        d.log.clear();
    })
}
/// Logged operations: (kind, offset, asked, result).
pub fn take_log() -> Vec<(u8, u64, u64, i64)> {
    with(|d| std::mem::take(&mut d.log))
}

// ---- served system calls; None = not a simulated object ----

/// Whether there is such a file, for a path in the simulated directory.
pub fn exists(path: &[u8]) -> Option<bool> {
    let name = path.strip_prefix(PREFIX)?;
    Some(with(|d| d.files.iter().any(|f| f.name.as_bytes() == name)))
}

pub fn open(path: &[u8]) -> Option<i64> {
    if !path.starts_with(PREFIX) {
        return None;
    }
    let r = with(|d| {
        let name = &path[PREFIX.len()..];
        let Some(i) = d.files.iter().position(|f| f.name.as_bytes() == name) else { return -(libc::ENOENT as i64) };
        let k = d.files[i].opens;
        d.files[i].opens += 1;
        let mut err = 0;
        for (ft, _, _) in d.files[i].faults.iter() {
            if ft.kind == Kind::OpenErr && k >= ft.a && k - ft.a < ft.b {
                err = ft.c as i64;
            }
        }
        if err != 0 {
            d.counts.open_err += 1;
            return -err;
        }
        let fd = unsafe { crate::sys::raw(libc::SYS_memfd_create, c"simfs".as_ptr() as i64, 1, 0, 0, 0, 0) };
        if fd < 0 {
            return fd;
        }
        let data = &d.files[i].data;
        let mut off = 0;
        while off < data.len() {
            let n = unsafe { crate::sys::raw(libc::SYS_pwrite64, fd, data[off..].as_ptr() as i64, (data.len() - off) as i64, off as i64, 0, 0) };
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        let Some(slot) = d.fds.get_mut(fd as usize) else { crate::die(3, "SIM too many descriptors") };
        *slot = Some(Fd { file: i, pos: 0, same: -1 });
        d.open_fds += 1;
        if d.log_on {
            d.log.push((b'o', 0, 0, fd));
        }
        fd
    });
    crate::sched::yield_now();
    Some(r)
}

pub fn close(fd: i32) {
    with(|d| {
        if let Some(s) = d.fds.get_mut(fd as usize) {
            if s.take().is_some() {
                d.open_fds -= 1;
            }
        }
    })
}

pub fn dup(fd: i32, newfd: i32) {
    with(|d| {
        if fd >= 0 && d.fds.get(fd as usize).is_some_and(|f| f.is_some()) {
            let f = d.fds[fd as usize].as_ref().unwrap();
            let n = Fd { file: f.file, pos: f.pos, same: if f.same >= 0 { f.same } else { fd } };
            d.fds[newfd as usize] = Some(n);
            d.open_fds += 1;
        }
    })
}

impl Disk {
    fn base(&self, fd: i32) -> Option<usize> {
        let f = self.fds.get(fd as usize)?.as_ref()?;
        if f.same >= 0 && self.fds[f.same as usize].is_some() {
            Some(f.same as usize)
        } else {
            Some(fd as usize)
        }
    }
}

pub fn is_sim(fd: i32) -> bool {
    fd >= 0 && with(|d| d.fds.get(fd as usize).is_some_and(|f| f.is_some()))
}

/// Plan a read of `n` bytes at `pos`: Err(errno) or the slice to deliver.
fn plan(d: &mut Disk, fi: usize, pos: u64, n: usize) -> Result<(usize, usize), i32> {
    let f = &mut d.files[fi];
    let k = f.reads;
    f.reads += 1;
    let mut size = f.data.len() as u64;
    for (ft, _, _) in f.faults.iter() {
        if ft.kind == Kind::Shrink && k >= ft.a && ft.b < size {
            size = ft.b;
            d.counts.shrink += 1;
        }
    }
    let mut len = (size.saturating_sub(pos) as usize).min(n);
    for (ft, rng, st) in f.faults.iter_mut() {
        match ft.kind {
            Kind::Eintr => {
                if k >= ft.a && k - ft.a < ft.b {
                    d.counts.eintr += 1;
                    return Err(libc::EINTR);
                }
            }
            Kind::EintrRand => {
                if *st < 3 && rng.below(1000) < ft.a {
                    *st += 1;
                    d.counts.eintr += 1;
                    return Err(libc::EINTR);
                }
                *st = 0;
            }
            Kind::ReadErr => {
                if k >= ft.a && k - ft.a < ft.b {
                    d.counts.read_err += 1;
                    return Err(ft.c as i32);
                }
            }
            Kind::BadRange => {
                if *st < ft.c && pos < ft.b && pos + len as u64 > ft.a {
                    if pos >= ft.a {
                        *st += 1;
                        d.counts.bad_range += 1;
                        return Err(libc::EIO);
                    }
                    len = (ft.a - pos) as usize;
                }
            }
            Kind::ShortMax => {
                if len as u64 > ft.a {
                    len = ft.a as usize;
                    d.counts.short += 1;
                }
            }
            Kind::ShortRand => {
                let m = rng.range(1, ft.a.max(1));
                if len as u64 > m {
                    len = m as usize;
                    d.counts.short += 1;
                }
            }
            _ => {}
        }
    }
    f.bytes += len as u64;
    Ok((pos as usize, len))
}

pub unsafe fn read(fd: i32, buf: *mut u8, n: usize) -> Option<i64> {
    if !is_sim(fd) {
        return None;
    }
    let r = with(|d| {
        let b = d.base(fd).unwrap();
        let (fi, pos) = {
            let f = d.fds[b].as_ref().unwrap();
            (f.file, f.pos)
        };
        let r = match plan(d, fi, pos, n) {
            Err(e) => -(e as i64),
            Ok((at, len)) => {
                if len > 0 {
                    std::ptr::copy_nonoverlapping(d.files[fi].data[at..].as_ptr(), buf, len);
                }
                d.fds[b].as_mut().unwrap().pos += len as u64;
                len as i64
            }
        };
        if d.log_on {
            d.log.push((b'r', pos, n as u64, r));
        }
        r
    });
    crate::sched::yield_now();
    Some(r)
}

pub unsafe fn pread(fd: i32, buf: *mut u8, n: usize, off: u64) -> Option<i64> {
    if !is_sim(fd) {
        return None;
    }
    Some(with(|d| {
        let fi = d.fds[fd as usize].as_ref().unwrap().file;
        let r = match plan(d, fi, off, n) {
            Err(e) => -(e as i64),
            Ok((at, len)) => {
                if len > 0 {
                    std::ptr::copy_nonoverlapping(d.files[fi].data[at..].as_ptr(), buf, len);
                }
                len as i64
            }
        };
        if d.log_on {
            d.log.push((b'p', off, n as u64, r));
        }
        r
    }))
}

pub fn seek(fd: i32, off: i64, whence: i32) -> Option<i64> {
    if !is_sim(fd) {
        return None;
    }
    Some(with(|d| {
        let b = d.base(fd).unwrap();
        let (fi, pos) = {
            let f = d.fds[b].as_ref().unwrap();
            (f.file, f.pos)
        };
        let f = &mut d.files[fi];
        let k = f.seeks;
        f.seeks += 1;
        let mut r = None;
        for (ft, _, _) in f.faults.iter() {
            if ft.kind == Kind::SeekErr && k >= ft.a && k - ft.a < ft.b {
                d.counts.seek_err += 1;
                r = Some(-(ft.c as i64));
            }
        }
        let r = r.unwrap_or_else(|| {
            let base = match whence {
                0 => 0i128,
                1 => pos as i128,
                2 => f.data.len() as i128,
                _ => return -(libc::EINVAL as i64),
            };
            let t = base + off as i128;
            if t < 0 || t > i64::MAX as i128 {
                return -(libc::EINVAL as i64);
            }
            d.fds[b].as_mut().unwrap().pos = t as u64;
            t as i64
        });
        if d.log_on {
            d.log.push((b's', off as u64, whence as u64, r));
        }
        r
    }))
}
