//! The command line tools, from the repository's sources, run inside the simulator.
use std::ffi::{c_char, c_int, CString};
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering::SeqCst};

macro_rules! tools {
    ($($t:ident)*) => {$(
        #[allow(dead_code, unused_imports, clippy::all)]
        mod $t {
            include!(concat!(env!("OUT_DIR"), "/", stringify!($t), ".rs"));
        }
    )*};
}
tools!(ordiag ordump metadata identify rawdata probe);

static ARGV: AtomicPtr<*const c_char> = AtomicPtr::new(std::ptr::null_mut());
static ARGC: AtomicUsize = AtomicUsize::new(0);
extern "C" fn args_init(argc: c_int, argv: *mut *const c_char, _: *const *const c_char) {
    ARGC.store(argc as usize, SeqCst);
    ARGV.store(argv, SeqCst);
}
#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn(c_int, *mut *const c_char, *const *const c_char) = args_init;

const ROOM: usize = 24;
const PAD: &std::ffi::CStr = c"--pad";

/// The arguments std hands out are the process's own: start again with room for a tool's.
pub fn make_room() {
    let (n, v) = (ARGC.load(SeqCst), ARGV.load(SeqCst));
    if v.is_null() || n >= ROOM {
        return;
    }
    let mut a: Vec<*const c_char> = (0..n).map(|i| unsafe { *v.add(i) }).collect();
    while a.len() < ROOM {
        a.push(PAD.as_ptr());
    }
    a.push(std::ptr::null());
    unsafe { libc::execv(c"/proc/self/exe".as_ptr(), a.as_ptr()) };
}

/// Run a tool's main with these arguments; Err if it panicked.
pub fn run(name: &str, args: &[String]) -> Result<(), String> {
    let v = ARGV.load(SeqCst);
    assert!(!v.is_null() && args.len() + 2 <= ARGC.load(SeqCst));
    let a: Vec<CString> = std::iter::once(name).chain(args.iter().map(|s| s.as_str())).map(|s| CString::new(s).unwrap()).collect();
    for (i, s) in a.iter().enumerate() {
        unsafe { *v.add(i) = s.as_ptr() };
    }
    unsafe { *v.add(a.len()) = std::ptr::null() };
    std::mem::forget(a);
    crate::obs::guard(|| {
        match name {
            "ordiag" => ordiag::main(),
            "ordump" => ordump::main(),
            "identify" => identify::main(),
            "rawdata" => rawdata::main(),
            "probe" => probe::main(),
            _ => metadata::main(),
        }
        let _ = std::io::Write::flush(&mut std::io::stdout());
    })
}
