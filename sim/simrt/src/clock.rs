//! Logical clock and coverage: one tick per basic-block edge of libopenraw.
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, AtomicU64, Ordering::Relaxed};

pub const MAXG: usize = 1 << 17;
static STEPS: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static NGUARD: AtomicU32 = AtomicU32::new(0);
static EPOCH: AtomicU32 = AtomicU32::new(1);
static NEW_EDGES: AtomicU64 = AtomicU64::new(0);
static COV: [AtomicU32; MAXG] = [const { AtomicU32::new(0) }; MAXG];
static EVER0: [AtomicBool; MAXG] = [const { AtomicBool::new(false) }; MAXG];
static EVER: AtomicPtr<AtomicBool> = AtomicPtr::new(EVER0.as_ptr() as *mut AtomicBool);
#[inline]
fn ever(i: usize) -> &'static AtomicBool {
    unsafe { &*EVER.load(Relaxed).add(i) }
}
/// Keep coverage in memory shared with child processes (MAXG zeroed bytes).
pub fn share_ever(p: *mut u8) {
    EVER.store(p as *mut AtomicBool, Relaxed);
}

#[inline(always)]
pub unsafe fn tick(g: *mut u32) {
    let s = STEPS.load(Relaxed) + 1;
    STEPS.store(s, Relaxed);
    let i = *g as usize;
    if i < MAXG {
        let e = EPOCH.load(Relaxed);
        if COV[i].load(Relaxed) != e {
            COV[i].store(e, Relaxed);
            NEW_EDGES.store(NEW_EDGES.load(Relaxed) + 1, Relaxed);
            ever(i).store(true, Relaxed);
        }
    }
    if s > LIMIT.load(Relaxed) {
        overrun();
    }
    crate::sched::tick();
}

#[cold]
fn overrun() {
    crate::die(crate::EXIT_HANG, "SIM-HANG step budget exhausted");
}

pub unsafe fn init(mut s: *mut u32, e: *mut u32) {
    while s < e {
        if *s == 0 {
            *s = NGUARD.fetch_add(1, Relaxed) + 1;
        }
        s = s.add(1);
    }
}

pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}
/// Allow `n` more steps from now.
pub fn set_budget(n: u64) {
    LIMIT.store(STEPS.load(Relaxed).saturating_add(n), Relaxed);
}
pub fn clear_budget() {
    LIMIT.store(u64::MAX, Relaxed);
}
pub fn guards() -> u32 {
    NGUARD.load(Relaxed)
}
pub fn new_epoch() {
    EPOCH.fetch_add(1, Relaxed);
    NEW_EDGES.store(0, Relaxed);
}
pub fn epoch_edges() -> u64 {
    NEW_EDGES.load(Relaxed)
}
/// Hash of the set of edges covered in this epoch.
pub fn epoch_hash() -> u64 {
    let e = EPOCH.load(Relaxed);
    let mut h = 0u64;
    for i in 0..=(NGUARD.load(Relaxed) as usize).min(MAXG - 1) {
        if COV[i].load(Relaxed) == e {
            h = h.wrapping_add(crate::rng::mix(i as u64 + 1));
        }
    }
    h
}
pub fn ever_edges() -> u64 {
    (0..=(NGUARD.load(Relaxed) as usize).min(MAXG - 1)).filter(|i| ever(*i).load(Relaxed)).count() as u64
}
pub fn ever_bitmap() -> Vec<u8> {
    let n = NGUARD.load(Relaxed) as usize + 1;
    let mut v = vec![0u8; n.div_ceil(8)];
    for i in 0..n.min(MAXG) {
        if ever(i).load(Relaxed) {
            v[i / 8] |= 1 << (i % 8);
        }
    }
    v
}
