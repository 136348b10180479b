//! Files a program creates, its standard output and error: kept in memory, with a fault plan.
use crate::rng::Rng;
use std::sync::atomic::{AtomicBool, Ordering::*};

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// most bytes a write takes (0: any)
    pub max: usize,
    /// one write of so many is interrupted (0: none)
    pub eintr: u64,
    pub seed: u64,
    /// writes to files fail with this errno after so many bytes
    pub full: Option<(u64, i64)>,
    /// the n-th file can't be created, with this errno
    pub create: Option<(u64, i64)>,
}

#[derive(Default)]
pub struct Out {
    pub files: Vec<(String, Vec<u8>)>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub shorts: u64,
    pub eintrs: u64,
    pub fails: u64,
    plan: Plan,
    rng: Option<Rng>,
    fds: Vec<(i32, usize)>,
    creates: u64,
    written: u64,
    last_eintr: bool,
}

static ON: AtomicBool = AtomicBool::new(false);
static mut O: Option<Box<Out>> = None;

/// From here on what this process creates and prints is kept. One thread only.
pub fn start(plan: Plan) {
    #[allow(static_mut_refs)]
    unsafe {
        O = Some(Box::new(Out { rng: Some(Rng::new(plan.seed)), plan, ..Default::default() }));
    }
    ON.store(true, SeqCst);
}
pub fn stop() -> Out {
    ON.store(false, SeqCst);
    #[allow(static_mut_refs)]
    unsafe {
        *O.take().unwrap()
    }
}
fn with<R>(f: impl FnOnce(&mut Out) -> R) -> R {
    let was = crate::alloc::in_lib();
    crate::alloc::set_in_lib(false);
    #[allow(static_mut_refs)]
    let r = f(unsafe { O.as_mut().unwrap() });
    crate::alloc::set_in_lib(was);
    r
}

pub fn create(path: &[u8], flags: i32) -> Option<i64> {
    if !ON.load(SeqCst) || flags & (libc::O_CREAT | libc::O_WRONLY | libc::O_RDWR) == 0 {
        return None;
    }
    Some(with(|o| {
        o.creates += 1;
        if let Some((n, e)) = o.plan.create {
            if o.creates == n + 1 {
                o.fails += 1;
                return -e;
            }
        }
        let name = String::from_utf8_lossy(path).into_owned();
        let fd = unsafe { libc::memfd_create(c"out".as_ptr(), 0) };
        assert!(fd >= 0);
        o.files.push((name, vec![]));
        let i = o.files.len() - 1;
        o.fds.retain(|f| f.0 != fd);
        o.fds.push((fd, i));
        fd as i64
    }))
}

pub fn write(fd: i32, b: &[u8]) -> Option<i64> {
    if !ON.load(SeqCst) {
        return None;
    }
    with(|o| {
        let file = o.fds.iter().find(|f| f.0 == fd).map(|f| f.1);
        if file.is_none() && fd != 1 && fd != 2 {
            return None;
        }
        if b.is_empty() {
            return Some(0);
        }
        let rng = o.rng.as_mut().unwrap();
        if o.plan.eintr > 0 && !o.last_eintr && rng.chance(1, o.plan.eintr) {
            o.last_eintr = true;
            o.eintrs += 1;
            return Some(-libc::EINTR as i64);
        }
        o.last_eintr = false;
        let mut n = b.len();
        if o.plan.max > 0 && n > o.plan.max {
            n = rng.range(1, o.plan.max as u64) as usize;
            o.shorts += 1;
        }
        if let Some(i) = file {
            if let Some((at, e)) = o.plan.full {
                let left = at.saturating_sub(o.written) as usize;
                if left == 0 {
                    o.fails += 1;
                    return Some(-e);
                }
                if n > left {
                    n = left;
                    o.shorts += 1;
                }
            }
            o.written += n as u64;
            o.files[i].1.extend_from_slice(&b[..n]);
        } else if fd == 1 {
            o.stdout.extend_from_slice(&b[..n]);
        } else {
            o.stderr.extend_from_slice(&b[..n]);
        }
        Some(n as i64)
    })
}

pub fn close(fd: i32) {
    if ON.load(SeqCst) {
        with(|o| o.fds.retain(|f| f.0 != fd));
    }
}
