//! One process per scenario: fresh lazies, deaths attributed, results through a pipe.
use crate::scen::Scen;
use serde::{Deserialize, Serialize};
use simrt::sys;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicPtr, Ordering::Relaxed};

/// What a dying scenario leaves behind.
#[repr(C)]
pub struct Shm {
    op: [u8; 256],
    panic: [u8; 512],
    in_op: u32,
}
static SHM: AtomicPtr<Shm> = AtomicPtr::new(std::ptr::null_mut());

pub fn map_shared(n: usize) -> *mut u8 {
    let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}
pub fn init_shm() {
    SHM.store(map_shared(std::mem::size_of::<Shm>()) as *mut Shm, Relaxed);
}
fn copy(dst: &mut [u8], s: &str) {
    let n = s.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    dst[n] = 0;
}
fn text(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).to_string()
}
pub fn note_panic(s: &str) {
    // the consequence of the panic already noted
    if s.starts_with("panic in a function that cannot unwind") {
        return;
    }
    let p = SHM.load(Relaxed);
    if !p.is_null() {
        unsafe { copy(&mut (*p).panic, s) }
    }
}
pub fn set_op<T: std::fmt::Debug>(q: &T) {
    let p = SHM.load(Relaxed);
    if !p.is_null() {
        simrt::alloc::harness(|| unsafe {
            copy(&mut (*p).op, &format!("{q:?}"));
            (*p).in_op = 1;
        })
    }
}
pub fn set_op_str(s: &str) {
    let p = SHM.load(Relaxed);
    if !p.is_null() {
        unsafe {
            copy(&mut (*p).op, s);
            (*p).in_op = 1;
        }
    }
}
pub fn end_op() {
    let p = SHM.load(Relaxed);
    if !p.is_null() {
        unsafe { (*p).in_op = 0 }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// stable name of the kind of violation
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Out {
    pub viol: Option<Viol>,
    /// the scenario tested something (a fault struck, a schedule switched, damage was visible ...)
    pub nontrivial: bool,
    /// measure of distinct behaviour
    pub sig: u64,
    pub steps: u64,
    pub edges: u64,
    pub counts: BTreeMap<String, u64>,
    pub tape: Vec<u32>,
    /// the scenario could not be judged (with the reason)
    pub skipped: Option<String>,
    /// hash of everything observed
    pub digest: u64,
}
impl Out {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counts.entry(k.to_string()).or_default() += n;
        }
    }
}

fn status_text(st: i32) -> (String, String) {
    if libc::WIFEXITED(st) {
        match libc::WEXITSTATUS(st) {
            simrt::EXIT_HANG => ("hang".into(), "endless work: step budget exhausted".into()),
            simrt::EXIT_MEM => ("memory".into(), "allocation out of proportion".into()),
            simrt::EXIT_DEADLOCK => ("deadlock".into(), "deadlock".into()),
            simrt::EXIT_HEAP => ("heap".into(), "heap corruption (double free, overrun or write after free)".into()),
            n => ("exit".into(), format!("process exited with {n}")),
        }
    } else {
        let s = libc::WTERMSIG(st);
        if s == libc::SIGALRM {
            ("timeout".into(), "real-time limit of a scenario".into())
        } else if s == libc::SIGABRT {
            ("abort".into(), "process aborted".into())
        } else {
            ("signal".into(), format!("killed by signal {s}"))
        }
    }
}

pub fn read_all(fd: i32) -> Vec<u8> {
    let mut v = vec![];
    let mut b = vec![0u8; 65536];
    loop {
        let r = unsafe { sys::raw(libc::SYS_read, fd as i64, b.as_mut_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if r == -(libc::EINTR as i64) {
            continue;
        }
        if r <= 0 {
            return v;
        }
        v.extend_from_slice(&b[..r as usize]);
    }
}

/// Panic text without the parts that vary with the input or an edit elsewhere.
pub fn stable(s: &str) -> String {
    let mut o = String::new();
    let mut num = false;
    for c in s.chars() {
        if c.is_ascii_digit() {
            if !num {
                o.push('#');
            }
            num = true;
        } else {
            o.push(c);
            num = false;
        }
    }
    o
}

/// Run a scenario in a child process.
pub fn run(s: &Scen) -> Out {
    let p = SHM.load(Relaxed);
    unsafe {
        (*p).op[0] = 0;
        (*p).panic[0] = 0;
        (*p).in_op = 0;
    }
    let mut fds = [0i32; 2];
    unsafe { assert!(libc::pipe(fds.as_mut_ptr()) == 0) };
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            libc::alarm(if s.seed == u64::MAX { 600 } else { 60 });
            if std::env::var_os("SIM_STDERR").is_none() {
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(n, 2);
            }
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::props::run(s)));
        match r {
            Ok(mut o) => {
                o.edges = simrt::clock::epoch_edges();
                o.steps = simrt::clock::steps();
                let j = serde_json::to_vec(&o).unwrap();
                sys::write_all(fds[1], &j);
                unsafe { libc::_exit(0) }
            }
            Err(_) => unsafe { libc::_exit(101) },
        }
    }
    unsafe { libc::close(fds[1]) };
    let b = read_all(fds[0]);
    unsafe { libc::close(fds[0]) };
    let mut st = 0;
    unsafe {
        while libc::waitpid(pid, &mut st, 0) < 0 {}
    }
    if st == 0 {
        if let Ok(o) = serde_json::from_slice::<Out>(&b) {
            return o;
        }
    }
    let (op, panic, in_op) = unsafe { (text(&(*p).op), text(&(*p).panic), (*p).in_op) };
    let mut o = Out { nontrivial: true, ..Default::default() };
    if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 101 {
        o.skipped = Some(format!("harness: {panic}"));
        return o;
    }
    let (class, what) = status_text(st);
    if class == "timeout" || (in_op == 0 && class != "heap" && class != "deadlock") {
        o.skipped = Some(format!("{class} outside library code, op {op}: {panic}"));
        return o;
    }
    let d = if panic.is_empty() { format!("{what} in {op}") } else { format!("{what} in {op}: {panic}") };
    let opname: String = op.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
    o.sig = crate::obs::hash(d.as_bytes());
    let judged = crate::props::death(s, &class);
    let v = Viol { class: format!("{class}:{opname}:{}", stable(panic.split(" at ").last().unwrap_or(""))), detail: d };
    if judged {
        o.viol = Some(v);
    } else {
        o.skipped = Some(format!("death not judged: {}", v.detail));
    }
    o
}
