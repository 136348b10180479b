//! Simulated heap: seed-chosen poison in fresh memory, fences, quarantine, accounting, budget.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::Relaxed};
use std::sync::atomic::Ordering::{Acquire, Release};

pub struct SimAlloc;

const LIVE: u64 = 0x51a11a11_0ca7e001;
const FREED: u64 = 0x51a11a11_dead0002;
const TAIL: u64 = 0xa5a5_5a5a_c3c3_3c3c;
const FREE_FILL: u8 = 0xdd;

static POISON: AtomicU64 = AtomicU64::new(0xcdcd_cdcd_cdcd_cdcd);
static EPOCH: AtomicU32 = AtomicU32::new(1);
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static LIVE_COUNT: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static MAXREQ: AtomicU64 = AtomicU64::new(0);
pub static BIG: AtomicU64 = AtomicU64::new(u64::MAX);
static BUDGET: AtomicI64 = AtomicI64::new(i64::MAX);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static QUAR_ON: AtomicBool = AtomicBool::new(true);

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
}

#[repr(C)]
struct Head {
    size: u64,
    magic: u64,
    epoch: u32,
    tracked: u32,
    align: u64,
}
const H: usize = 32;

const QN: usize = 2048;
const QBYTES: usize = 24 << 20;
struct Quar {
    ring: [(usize, usize); QN],
    head: usize,
    len: usize,
    bytes: usize,
}
static QLOCK: AtomicBool = AtomicBool::new(false);
static mut QUAR: Quar = Quar { ring: [(0, 0); QN], head: 0, len: 0, bytes: 0 };

fn pre(l: &Layout) -> usize {
    l.align().max(H)
}
fn real(l: &Layout) -> Option<Layout> {
    let sz = l.size().checked_add(pre(l))?.checked_add(16)?;
    Layout::from_size_align(sz, l.align().max(16)).ok()
}
unsafe fn head(p: *mut u8) -> *mut Head {
    p.sub(H) as *mut Head
}

impl SimAlloc {
    unsafe fn get(&self, l: Layout, zero: bool) -> *mut u8 {
        let tracked = IN_LIB.with(|c| c.get());
        if tracked {
            let n = LIVE_BYTES.load(Relaxed) + l.size() as i64;
            if l.size() as u64 > MAXREQ.load(Relaxed) {
                MAXREQ.store(l.size() as u64, Relaxed);
            }
            if l.size() as u64 > BIG.load(Relaxed) {
                // development aid: where large requests come from
                let b = BIG.swap(u64::MAX, Relaxed);
                harness(|| eprintln!("request of {} bytes\n{}", l.size(), std::backtrace::Backtrace::force_capture()));
                BIG.store(b, Relaxed);
            }
            if n > BUDGET.load(Relaxed) || l.size() > (3 << 30) {
                crate::die(crate::EXIT_MEM, "SIM-MEM allocation budget exhausted");
            }
        }
        let Some(rl) = real(&l) else { return std::ptr::null_mut() };
        let b = if zero { System.alloc_zeroed(rl) } else { System.alloc(rl) };
        if b.is_null() {
            return b;
        }
        let p = b.add(pre(&l));
        if !zero {
            fill(p, l.size().min(64 << 20), POISON.load(Relaxed));
        }
        *head(p) = Head { size: l.size() as u64, magic: LIVE, epoch: EPOCH.load(Relaxed), tracked: tracked as u32, align: l.align() as u64 };
        (p.add(l.size()) as *mut u64).write_unaligned(TAIL);
        (p.add(l.size()) as *mut u64).add(1).write_unaligned(TAIL);
        if tracked {
            ALLOCS.fetch_add(1, Relaxed);
            LIVE_COUNT.fetch_add(1, Relaxed);
            let n = LIVE_BYTES.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
            if n > PEAK.load(Relaxed) {
                PEAK.store(n, Relaxed);
            }
        }
        p
    }
}

unsafe fn fill(p: *mut u8, n: usize, pat: u64) {
    let q = p as *mut u64;
    for i in 0..n / 8 {
        q.add(i).write_unaligned(pat);
    }
    let t = pat.to_le_bytes();
    for i in (n / 8) * 8..n {
        *p.add(i) = t[i % 8];
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        self.get(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        self.get(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = head(p);
        if (*h).magic == FREED {
            crate::die(crate::EXIT_HEAP, "SIM-HEAP double free");
        }
        if (*h).magic != LIVE {
            crate::die(crate::EXIT_HEAP, "SIM-HEAP free of memory that was not allocated");
        }
        if (*h).size != l.size() as u64 || (*h).align != l.align() as u64 {
            crate::die(crate::EXIT_HEAP, "SIM-HEAP free with a different size or alignment");
        }
        let t = p.add(l.size()) as *const u64;
        if t.read_unaligned() != TAIL || t.add(1).read_unaligned() != TAIL {
            crate::die(crate::EXIT_HEAP, "SIM-HEAP write past the end of an allocation");
        }
        (*h).magic = FREED;
        if (*h).tracked != 0 && (*h).epoch == EPOCH.load(Relaxed) {
            LIVE_COUNT.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
        }
        let base = p as usize - pre(&l);
        let total = real(&l).unwrap();
        if l.size() > (4 << 20) || !QUAR_ON.load(Relaxed) || (*h).tracked == 0 {
            // not worth keeping: still make stale content visible
            std::ptr::write_bytes(p, FREE_FILL, l.size().min(4096));
            System.dealloc(base as *mut u8, total);
            return;
        }
        std::ptr::write_bytes(p, FREE_FILL, l.size());
        while QLOCK.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        let q = &mut *std::ptr::addr_of_mut!(QUAR);
        while q.len == QN || q.bytes + l.size() > QBYTES {
            evict(q);
        }
        let at = (q.head + q.len) % QN;
        q.ring[at] = (p as usize, l.size());
        q.len += 1;
        q.bytes += l.size();
        QLOCK.store(false, Release);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let np = self.get(nl, false);
        if !np.is_null() {
            std::ptr::copy_nonoverlapping(p, np, l.size().min(n));
            self.dealloc(p, l);
        }
        np
    }
}

unsafe fn evict(q: &mut Quar) {
    if q.len == 0 {
        return;
    }
    let (p, n) = q.ring[q.head];
    q.head = (q.head + 1) % QN;
    q.len -= 1;
    q.bytes -= n;
    let s = std::slice::from_raw_parts(p as *const u8, n);
    if s.iter().any(|b| *b != FREE_FILL) {
        crate::die(crate::EXIT_HEAP, "SIM-HEAP write to freed memory");
    }
    let h = head(p as *mut u8);
    let align = (*h).align as usize;
    let l = Layout::from_size_align_unchecked(n, align);
    System.dealloc((p - pre(&l)) as *mut u8, real(&l).unwrap());
}

/// Check and empty the quarantine.
pub fn drain() {
    unsafe {
        while QLOCK.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        let q = &mut *std::ptr::addr_of_mut!(QUAR);
        while q.len > 0 {
            evict(q);
        }
        QLOCK.store(false, Release);
    }
}

pub fn set_poison(p: u64) {
    POISON.store(p, Relaxed);
}
pub fn is_freed_fill(b: u8) -> bool {
    b == FREE_FILL
}

/// Run `f` as library code: its allocations are accounted.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            IN_LIB.with(|c| c.set(self.0));
        }
    }
    let _g = G(IN_LIB.with(|c| c.replace(true)));
    f()
}
/// Run `f` as harness code inside a `lib` section (a callback).
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            IN_LIB.with(|c| c.set(self.0));
        }
    }
    let _g = G(IN_LIB.with(|c| c.replace(false)));
    f()
}
pub fn in_lib() -> bool {
    IN_LIB.with(|c| c.get())
}
pub fn set_in_lib(b: bool) {
    IN_LIB.with(|c| c.set(b))
}

/// Start a fresh accounting epoch.
pub fn begin() {
    EPOCH.fetch_add(1, Relaxed);
    LIVE_BYTES.store(0, Relaxed);
    LIVE_COUNT.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    MAXREQ.store(0, Relaxed);
    ALLOCS.store(0, Relaxed);
    BUDGET.store(i64::MAX, Relaxed);
}
pub fn set_budget(b: i64) {
    BUDGET.store(b, Relaxed);
}
pub fn live() -> (i64, i64) {
    (LIVE_COUNT.load(Relaxed), LIVE_BYTES.load(Relaxed))
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}
pub fn reset_peak() {
    PEAK.store(LIVE_BYTES.load(Relaxed), Relaxed);
    MAXREQ.store(0, Relaxed);
}
pub fn maxreq() -> u64 {
    MAXREQ.load(Relaxed)
}
pub fn allocs() -> u64 {
    ALLOCS.load(Relaxed)
}
