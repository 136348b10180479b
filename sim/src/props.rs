//! The properties: scenario generation and judgement.
use crate::obs::*;
use crate::scen::*;
use crate::synth::{self, Expect, SynFile};
use crate::worker::{Out, Viol};
use libopenraw::{RawFileHandle, Type};
use simrt::rng::Rng;
use simrt::sched::{self, Tape};
use simrt::{clock, disk};
use std::collections::{BTreeMap, BTreeSet};

pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21",
];

/// Does a death of the process in library code violate the property of this scenario?
pub fn death(s: &Scen, class: &str) -> bool {
    let crash = ["C02", "C03", "C04", "C07", "C08", "C09", "C10", "C11", "C13", "C17", "C18", "C19", "C20", "C21"].contains(&s.prop.as_str());
    match class {
        "memory" => s.prop == "C19" || s.prop == "C04",
        _ => crash || s.files.iter().all(|f| f.muts.is_empty() && f.bytes.is_none()),
    }
}

pub fn gen(prop: &str, seed: u64) -> Scen {
    let mut rng = Rng::new(simrt::rng::mix(seed) ^ hash(prop.as_bytes()));
    let r = &mut rng;
    let mut s = base(prop, seed, r);
    match prop {
        "C01" => gen_c01(&mut s, r),
        "C02" => gen_c02(&mut s, r),
        "C03" => gen_c03(&mut s, r),
        "C04" => gen_c04(&mut s, r),
        "C05" => gen_c05(&mut s, r),
        "C06" => gen_c06(&mut s, r),
        "C07" => gen_c07(&mut s, r),
        "C08" => gen_c08(&mut s, r),
        "C09" => crate::capi::gen_c09(&mut s, r),
        "C10" => crate::capi::gen_c10(&mut s, r),
        "C11" => gen_c11(&mut s, r),
        "C12" => gen_c12(&mut s, r),
        "C13" => gen_c13(&mut s, r),
        "C14" | "C15" | "C16" => gen_exact(&mut s, r),
        "C17" => gen_c17(&mut s, r),
        "C18" => gen_c18(&mut s, r),
        "C21" => gen_c21(&mut s, r),
        "C19" => gen_c19(&mut s, r),
        "C20" => gen_c20(&mut s, r),
        _ => panic!("no property {prop}"),
    }
    s
}

pub fn run(s: &Scen) -> Out {
    let files = s.load();
    s.enter(&files);
    clock::new_epoch();
    let mut o = Out::default();
    match s.prop.as_str() {
        "C01" => run_c01(s, &files, &mut o),
        "C02" | "C03" => run_c02(s, &files, &mut o),
        "C04" => run_c04(s, &files, &mut o),
        "C05" => run_c05(s, &files, &mut o),
        "C06" => run_c06(s, &files, &mut o),
        "C07" => run_c07(s, &files, &mut o),
        "C08" => run_c08(s, &files, &mut o),
        "C09" => crate::capi::run_c09(s, &files, &mut o),
        "C10" => crate::capi::run_c10(s, &files, &mut o),
        "C11" => run_c11(s, &files, &mut o),
        "C12" => run_c12(s, &files, &mut o),
        "C13" => run_c13(s, &files, &mut o),
        "C14" | "C15" | "C16" => run_exact(s, &files, &mut o),
        "C17" => run_c17(s, &files, &mut o),
        "C18" => run_c18(s, &files, &mut o),
        "C21" => run_c21(s, &files, &mut o),
        "C19" => run_c19(s, &files, &mut o),
        "C20" => run_c20(s, &files, &mut o),
        p => panic!("no property {p}"),
    }
    simrt::alloc::drain();
    o.sig = simrt::rng::mix(clock::epoch_hash() ^ o.sig);
    for f in &files {
        if let Some(syn) = &f.syn {
            o.count(&format!("file:{}", syn.fmt), 1);
        }
        if f.damaged {
            o.count("file damaged", 1);
        }
    }
    o
}

// ------------------------------------------------------------------ helpers

pub fn viol(o: &mut Out, class: impl Into<String>, detail: impl Into<String>) {
    if o.viol.is_none() {
        o.viol = Some(Viol { class: class.into(), detail: detail.into() });
    }
}

pub fn qname(q: &Q) -> String {
    let s = format!("{q:?}");
    match q {
        Q::Raw(_) | Q::Render(..) | Q::Ifd(_) => s,
        _ => s.chars().take_while(|c| c.is_alphanumeric()).collect(),
    }
}

pub fn pick_fmt(r: &mut Rng) -> &'static str {
    let f = std::env::var("SIM_FMT").unwrap_or_default();
    if let Some(x) = synth::FORMATS.iter().find(|x| **x == f) {
        return x;
    }
    // what most decoders have in common is most varied there
    if r.chance(1, 5) {
        return "dng";
    }
    *r.pick(synth::FORMATS)
}

pub fn a_file(r: &mut Rng) -> FileSpec {
    let f = pick_fmt(r);
    FileSpec::new(f, r.u64() & 0xffff_ffff)
}

pub fn syn(f: &FileSpec) -> SynFile {
    synth::gen(&f.fmt, f.seed)
}

pub fn hint_num(t: &str) -> u32 {
    (1..=100).find(|n| hint_of(*n).map(|t2| format!("{t2:?}") == t).unwrap_or(false)).unwrap_or(0)
}

/// The type to give for that file.
pub fn hint_for(y: &SynFile) -> u32 {
    match y.ext {
        "gpr" => hint_num("Gpr"),
        "nrw" => hint_num("Nrw"),
        _ => hint_num(y.exp.type_),
    }
}

/// Queries worth asking of that file.
pub fn queries(f: &SynFile) -> Vec<Q> {
    let mut dims: Vec<u32> = f.exp.thumbs.as_ref().map(|t| t.iter().map(|t| t.dim).collect()).unwrap_or_default();
    dims.sort();
    dims.dedup();
    let mut v = all_queries(&dims);
    for (k, _) in f.exp.meta.iter().take(12) {
        v.push(Q::Meta(k.clone()));
    }
    for (n, d) in &f.exp.dirs {
        for (t, _) in d.iter().take(8) {
            v.push(Q::Entry(*n, *t));
        }
    }
    v
}

/// A random selection of queries, in random order; cheap ones dominate.
pub fn some_queries(r: &mut Rng, f: &SynFile, n: usize) -> Vec<Q> {
    let mut all = queries(f);
    r.shuffle(&mut all);
    let mut must = vec![];
    for q in [Q::Sizes, Q::Raw(false), Q::Raw(true), Q::MetaAll, Q::Dump, Q::Thumb(160)] {
        if r.chance(1, 2) {
            must.push(q);
        }
    }
    all.truncate(n);
    all.retain(|q| !must.contains(q));
    all.extend(must);
    r.shuffle(&mut all);
    all
}

pub fn how(r: &mut Rng) -> How {
    if r.chance(1, 3) {
        How::Mem
    } else if r.chance(1, 8) {
        How::Io(cap(r))
    } else {
        How::Path
    }
}

pub fn cap(r: &mut Rng) -> u16 {
    *r.pick(&[1u16, 2, 3, 7, 16, 63, 64, 255, 1000])
}

pub fn open(f: &Loaded, how: How, hint: u32) -> Result<RawFileHandle, Ob> {
    open_as(f, &f.name, how, hint)
}
pub fn open_as(f: &Loaded, name: &str, how: How, hint: u32) -> Result<RawFileHandle, Ob> {
    let h: Option<Type> = hint_of(hint);
    match how {
        How::Path => open_path(name, h),
        // by content or hint only
        How::Mem => open_mem(&f.bytes, h),
        How::Io(n) => open_io(name, n, h),
    }
}

/// The queries of all handles, in order, as answered.
pub struct Answer {
    pub op: usize,
    pub h: usize,
    pub file: usize,
    pub q: Option<Q>,
    pub ob: Ob,
}

/// Run a history of operations.
pub fn history(s: &Scen, files: &[Loaded], faults: bool, budget: bool) -> Vec<Answer> {
    let mut hs: BTreeMap<usize, (usize, RawFileHandle)> = BTreeMap::new();
    let mut out = vec![];
    for (i, op) in s.ops.iter().enumerate() {
        if budget {
            clock::set_budget(step_budget(files));
        }
        match op {
            Op::Open(h, f, how, hint) => {
                if let Some((_, h)) = hs.remove(h) {
                    close(h);
                }
                match open(&files[*f], *how, *hint) {
                    Ok(x) => {
                        hs.insert(*h, (*f, x));
                        out.push(Answer { op: i, h: *h, file: *f, q: None, ob: Ob::Val("opened".into()) });
                    }
                    Err(e) => out.push(Answer { op: i, h: *h, file: *f, q: None, ob: e }),
                }
            }
            Op::Q(h, q) => {
                if let Some((f, x)) = hs.get(h) {
                    let ob = query(x, q);
                    out.push(Answer { op: i, h: *h, file: *f, q: Some(q.clone()), ob });
                }
            }
            Op::Close(h) => {
                if let Some((_, h)) = hs.remove(h) {
                    close(h);
                }
            }
            Op::Faults(a, b) => {
                if faults {
                    s.set_faults(files, *a, *b)
                }
            }
            Op::Heal => {
                disk::clear_faults();
                for f in files.iter().filter(|f| f.damaged) {
                    disk::put(&f.name, f.orig.clone());
                }
            }
            Op::C(..) => {}
        }
        clock::clear_budget();
    }
    for (_, (_, h)) in hs {
        close(h);
    }
    out
}

/// Edges a single query may execute.
pub fn step_budget(files: &[Loaded]) -> u64 {
    let n: usize = files.iter().map(|f| f.bytes.len().max(f.orig.len())).max().unwrap_or(0);
    60_000_000 + 4000 * n as u64
}

pub fn note_counts(o: &mut Out) {
    let c = disk::counts();
    o.count("fault:short read", c.short);
    o.count("fault:interrupted read", c.eintr);
    o.count("fault:read error", c.read_err);
    o.count("fault:bad range", c.bad_range);
    o.count("fault:seek error", c.seek_err);
    o.count("fault:open error", c.open_err);
    o.count("fault:file shrinks", c.shrink);
}

/// Run in a process of its own and return its answers.
pub fn isolated(f: impl FnOnce() -> Vec<(String, u64, String)>) -> Vec<(String, u64, String)> {
    let mut fds = [0i32; 2];
    unsafe { assert!(libc::pipe(fds.as_mut_ptr()) == 0) };
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0);
    if pid == 0 {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        if let Ok(v) = r {
            simrt::sys::write_all(fds[1], &serde_json::to_vec(&v).unwrap());
            unsafe { libc::_exit(0) }
        }
        unsafe { libc::_exit(101) }
    }
    unsafe { libc::close(fds[1]) };
    let mut b = vec![];
    let mut buf = vec![0u8; 65536];
    loop {
        let r = unsafe { simrt::sys::raw(libc::SYS_read, fds[0] as i64, buf.as_mut_ptr() as i64, buf.len() as i64, 0, 0, 0) };
        if r == -(libc::EINTR as i64) {
            continue;
        }
        if r <= 0 {
            break;
        }
        b.extend_from_slice(&buf[..r as usize]);
    }
    unsafe { libc::close(fds[0]) };
    let mut st = 0;
    unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
    if st != 0 {
        return vec![("death".into(), st as u64, format!("status {st:#x}"))];
    }
    serde_json::from_slice(&b).unwrap_or_default()
}

pub fn digests(v: &[Answer]) -> Vec<(String, u64, String)> {
    v.iter().map(|a| (format!("op {} {}", a.op, a.q.as_ref().map(|q| format!("{q:?}")).unwrap_or("open".into())), a.ob.digest(), a.ob.brief())).collect()
}
pub fn sig_of(v: &[Answer]) -> u64 {
    v.iter().fold(7, |h, a| simrt::rng::mix(h ^ a.ob.digest()))
}

pub fn diff(o: &mut Out, class: &str, a: &[(String, u64, String)], b: &[(String, u64, String)], an: &str, bn: &str) {
    for (x, y) in a.iter().zip(b) {
        if x.0 != y.0 || x.1 != y.1 {
            let q: String = x.0.split(' ').nth(2).unwrap_or(&x.0).chars().take_while(|c| c.is_alphanumeric()).collect();
            return viol(o, format!("{class}:{q}"), format!("{}: {an}: {}; {bn}: {}", x.0, x.2, y.2));
        }
    }
    if a.len() != b.len() {
        viol(o, format!("{class}:count"), format!("{} answers {an}, {} {bn}: {:?} {:?}", a.len(), b.len(), a.last().map(|x| &x.2), b.last().map(|x| &x.2)));
    }
}

fn panic_class(p: &str) -> String {
    format!("panic:{}", crate::worker::stable(p))
}

/// No answer may be a panic.
pub fn no_panic(o: &mut Out, v: &[Answer]) {
    for a in v {
        if let Ob::Panic(p) = &a.ob {
            return viol(o, panic_class(p), format!("op {} {:?} panicked: {p}", a.op, a.q));
        }
    }
}

fn one_file_ops(r: &mut Rng, f: &SynFile, n: usize, s: &mut Scen) {
    let hint = if r.chance(1, 3) || (!f.exp.content) { hint_for(&f) } else { 0 };
    let how = if hint != 0 && r.chance(1, 3) { How::Io(cap(r)) } else { How::Path };
    s.ops.push(Op::Open(0, 0, how, hint));
    for q in some_queries(r, f, n) {
        s.ops.push(Op::Q(0, q));
    }
}

// ------------------------------------------------------------------ C01

fn benign_faults(r: &mut Rng, s: &mut Scen, file: usize) {
    let mut k = 0;
    while k == 0 || r.chance(1, 3) {
        k += 1;
        let (kind, a, b) = match r.us(4) {
            0 => ("short_max", *r.pick(&[1u64, 1, 2, 3, 5, 7, 16, 64, 255, 511, 4096, 8191]), 0),
            1 => ("short_rand", *r.pick(&[2u64, 3, 8, 64, 1000, 8192]), r.u64() & 0xffff_ffff),
            2 => ("eintr", r.range(1, 40), r.range(1, 5)),
            _ => ("eintr_rand", r.range(20, 600), r.u64() & 0xffff_ffff),
        };
        s.faults.push(FaultSpec { file, kind: kind.into(), a, b, c: 0 });
    }
}

fn gen_c01(s: &mut Scen, r: &mut Rng) {
    let mut fs = a_file(r);
    let f = syn(&fs);
    if r.chance(1, 5) {
        let n = r.range(1, 3) as usize;
        fs.muts = damage(r, &f, n);
    }
    // detection by content reads the file too
    if f.exp.content && r.chance(1, 3) {
        fs.name = "image".into();
    }
    s.files.push(fs);
    benign_faults(r, s, 0);
    s.ops.push(Op::Faults(0, 100));
    let n = r.range(3, 30) as usize;
    one_file_ops(r, &f, n, s);
}

fn run_c01(s: &Scen, files: &[Loaded], o: &mut Out) {
    let base = history(s, files, false, false);
    disk::put(&files[0].name, files[0].bytes.clone());
    let got = history(s, files, true, false);
    note_counts(o);
    let c = disk::counts();
    o.nontrivial = c.short + c.eintr > 0;
    o.digest = sig_of(&got);
    diff(o, "differs", &digests(&base), &digests(&got), "undisturbed", "with short and interrupted reads");
}

// ------------------------------------------------------------------ C02, C03

/// Where a field, or what it points to, is.
fn target(r: &mut Rng, y: &SynFile) -> u64 {
    let m = *r.pick(&y.marks);
    let b = &y.bytes[m.off..(m.off + m.len).min(y.bytes.len())];
    let v = (0..b.len()).fold(0u64, |v, i| v << 8 | b[if m.be { i } else { b.len() - 1 - i }] as u64);
    let at = if m.kind == synth::tb::MK::Ptr && v < y.bytes.len() as u64 { v } else { m.off as u64 };
    at + r.below(24)
}

pub fn error_faults(r: &mut Rng, s: &mut Scen, file: usize, y: &SynFile, len: usize) {
    let mut k = 0;
    while k == 0 || r.chance(1, 3) {
        k += 1;
        let errno = *r.pick(&[libc::EIO, libc::EIO, libc::ENOMEM, libc::ESTALE, libc::ETIMEDOUT, libc::EAGAIN, libc::EBADF]) as u64;
        let n = if r.chance(1, 3) { 1 << 40 } else { r.range(1, 4) };
        let (kind, a, b, c) = match r.us(8) {
            0 | 1 => ("read_err", r.range(0, 30), n, errno),
            2 | 3 | 4 => {
                let at = if y.marks.is_empty() || r.chance(1, 2) { r.below(len as u64 + 1) } else { target(r, y) };
                let l = *r.pick(&[1u64, 16, 512, 4096]);
                ("bad_range", at, at + l, if r.chance(2, 3) { 1 << 40 } else { r.range(1, 3) })
            }
            5 => ("seek_err", r.range(0, 60), n, errno),
            6 => ("shrink", r.range(1, 20), r.below(len as u64 + 1), 0),
            _ => ("read_err", r.range(0, 4), n, errno),
        };
        s.faults.push(FaultSpec { file, kind: kind.into(), a, b, c });
    }
    if r.chance(1, 40) {
        s.faults.push(FaultSpec { file, kind: "open_err".into(), a: 0, b: r.range(1, 2), c: *r.pick(&[libc::EMFILE, libc::ENOENT, libc::EACCES, libc::EIO]) as u64 });
    }
    if r.chance(1, 4) {
        // small reads, so that failures fall between any two bytes
        s.faults.push(FaultSpec { file, kind: "short_max".into(), a: r.range(1, 64), b: 0, c: 0 });
    }
}

fn gen_c02(s: &mut Scen, r: &mut Rng) {
    let mut fs = a_file(r);
    let f = syn(&fs);
    if f.exp.content && r.chance(1, 3) {
        fs.name = "image".into();
    }
    s.files.push(fs);
    error_faults(r, s, 0, &f, f.bytes.len());
    let n = r.range(3, 30) as usize;
    one_file_ops(r, &f, n, s);
    // from the start, or from some operation on
    let at = if r.chance(1, 2) { 0 } else { r.us(s.ops.len().min(4)) };
    s.ops.insert(at, Op::Faults(0, 100));
}

fn gen_c03(s: &mut Scen, r: &mut Rng) {
    let mut fs = a_file(r);
    let f = syn(&fs);
    fs.muts = vec![Mut::Trunc(cut(r, &f))];
    if f.exp.content && r.chance(1, 3) {
        fs.name = "image".into();
    }
    s.files.push(fs);
    let n = r.range(3, 30) as usize;
    one_file_ops(r, &f, n, s);
    if let Op::Open(_, _, h, _) = &mut s.ops[0] {
        *h = how(r);
    }
}

/// Everything the undamaged file delivers.
pub struct Truth {
    pub map: BTreeMap<Q, Ob>,
    pub thumbs: Vec<(u32, u32, String, Vec<u8>)>,
    pub sizes: Vec<u32>,
    /// the raw data as stored
    pub stored: Option<(String, u8, Vec<u8>)>,
    pub meta: BTreeSet<(String, String, i16)>,
}

pub fn truth(name: &str, hint: u32, qs: &[Q]) -> Truth {
    let mut map = BTreeMap::new();
    let mut thumbs = vec![];
    let mut sizes = vec![];
    let mut meta = BTreeSet::new();
    match open_path(name, hint_of(hint)) {
        Ok(h) => {
            if let Some(Ok(v)) = guard(|| h.thumbnail_sizes().map(|s| s.to_vec())).ok().flatten().map(Ok::<_, ()>) {
                sizes = v;
            }
            let mut all: Vec<Q> = qs.to_vec();
            for n in &sizes {
                all.push(Q::Thumb(*n));
            }
            for q in [Q::Raw(true), Q::Raw(false), Q::MetaAll] {
                all.push(q);
            }
            for q in all {
                if map.contains_key(&q) {
                    continue;
                }
                let ob = query(&h, &q);
                match &ob {
                    Ob::Thumb { w, h, fmt, data, .. } => thumbs.push((*w, *h, fmt.clone(), data.clone())),
                    Ob::Meta(m) => meta.extend(m.iter().cloned()),
                    _ => {}
                }
                map.insert(q, ob);
            }
            close(h);
        }
        Err(e) => {
            map.insert(Q::Type, e);
        }
    }
    Truth { map, thumbs, sizes, meta, stored: None }
}

impl Truth {
    /// Add the stored previews themselves: a size that two previews share shows only one of them.
    pub fn add_stored(&mut self, e: &synth::Expect) {
        for t in e.thumbs.iter().flatten().chain(&e.hidden) {
            self.thumbs.push((t.w, t.h, t.fmt.to_string(), t.data.clone()));
        }
        self.stored = e.raw.as_ref().and_then(|r| r.stored.clone());
        self.sizes.extend(e.hidden.iter().map(|t| t.dim));
    }
}

fn is_prefix(a: &[u8], b: &[u8]) -> bool {
    a.len() <= b.len() && a == &b[..a.len()]
}

/// May a damaged access to the file answer `ob`? `cut`: the file was truncated.
pub fn acceptable(t: &Truth, q: &Q, ob: &Ob, cut: bool, uncompressed: bool) -> Result<(), String> {
    let bad = |what: &str| Err(format!("{q:?} delivered {}: {what}; undamaged: {}", ob.brief(), t.map.get(q).map(|o| o.brief()).unwrap_or_default()));
    match ob {
        Ob::Panic(p) => return Err(format!("{q:?} panicked: {p}")),
        Ob::Err(_) | Ob::Absent => return Ok(()),
        _ => {}
    }
    match (q, ob) {
        (Q::Type | Q::Mime, Ob::Val(v)) => {
            if let Some(Ob::Val(b)) = t.map.get(q) {
                if b != v {
                    return bad("another type");
                }
            }
        }
        (Q::Sizes, Ob::Val(v)) => {
            for n in v.trim_matches(|c| c == '[' || c == ']').split(", ").filter(|x| !x.is_empty()) {
                if !t.sizes.iter().any(|x| x.to_string() == n) {
                    return bad("a size the file does not store");
                }
            }
        }
        (Q::Thumb(_), Ob::Thumb { w, h, fmt, data, .. }) => {
            let ok = t.thumbs.iter().any(|x| x.2 == *fmt && if cut { is_prefix(data, &x.3) } else { x.0 == *w && x.1 == *h && x.3 == *data });
            if !ok {
                return bad("not a thumbnail of the file");
            }
        }
        (Q::Raw(skip), Ob::Raw(r)) => {
            let base = match t.map.get(q) {
                Some(Ob::Raw(b)) => b,
                _ => return bad("raw data where the undamaged file has none"),
            };
            if cut {
                let compressed = r.dtype != "Raw";
                if !compressed && base.dtype != "Raw" && *skip {
                    return bad("undecoded data passed off as pixels");
                }
                if r.kind == 3 {
                    let (mut i, mut j) = (0, 0);
                    for (k, n) in r.tiles.iter().enumerate() {
                        let m = base.tiles.get(k).copied().unwrap_or(0);
                        if !is_prefix(&r.data[i..i + n], base.data.get(j..j + m).unwrap_or(&[])) {
                            return bad("tile content that is not in the file");
                        }
                        i += n;
                        j += m;
                    }
                } else if (uncompressed || *skip) && r.kind == base.kind && !is_prefix(&r.data, &base.data) {
                    return bad("content that is not in the file");
                }
            } else if r.dtype != "Raw" && t.stored.as_ref().is_some_and(|x| x.0 == r.dtype && x.1 == r.kind && x.2 == r.data) {
                // stated to be undecoded, and the stored bytes
            } else if (r.w, r.h, &r.dtype, r.kind, r.bpc) != (base.w, base.h, &base.dtype, base.kind, base.bpc) || r.data != base.data || r.tiles != base.tiles {
                return bad("not the file's raw data");
            }
        }
        (Q::Orient, Ob::Val(v)) => {
            if v != "0" && t.map.get(q) != Some(ob) {
                return bad("another orientation");
            }
        }
        (Q::MetaAll, Ob::Meta(m)) => {
            for e in m {
                if !t.meta.contains(e) && !e.1.starts_with("Invalid") {
                    return Err(format!("metadata {e:?} is not in the undamaged file"));
                }
            }
        }
        (Q::Meta(_), Ob::Val(v)) => {
            if !v.starts_with("Invalid") && t.map.get(q) != Some(ob) {
                return bad("another value");
            }
        }
        (Q::Entry(..), Ob::Val(v)) => {
            if v != "s None u None i None f None" && t.map.get(q) != Some(ob) {
                return bad("another value");
            }
        }
        (Q::Matrix(_), Ob::Val(v)) => {
            if v.starts_with("Provided") && t.map.get(q) != Some(ob) {
                return bad("another matrix");
            }
        }
        _ => {}
    }
    Ok(())
}

/// What tells the known finding about truncated unpacked RW2 files apart.
fn kind(f: &Loaded) -> &'static str {
    match &f.syn {
        Some(x) if x.fmt == "rw2" && x.tags.iter().any(|t| t == "raw:12in16") => " of unpacked rw2",
        _ => "",
    }
}

fn run_c02(s: &Scen, files: &[Loaded], o: &mut Out) {
    let f = &files[0];
    let hint = s.ops.iter().find_map(|x| if let Op::Open(_, _, _, h) = x { Some(*h) } else { None }).unwrap_or(0);
    // the undamaged file
    disk::put(&f.name, f.orig.clone());
    let qs: Vec<Q> = s.ops.iter().filter_map(|x| if let Op::Q(_, q) = x { Some(q.clone()) } else { None }).collect();
    let mut t = truth(&f.name, hint, &qs);
    if let Some(syn) = &f.syn {
        t.add_stored(&syn.exp);
    }
    let cut = s.prop == "C03";
    let unc = f.syn.as_ref().and_then(|x| x.exp.raw.as_ref()).map(|r| r.uncompressed).unwrap_or(false);
    disk::reset();
    disk::put(&f.name, f.bytes.clone());
    let got = history(s, files, true, true);
    note_counts(o);
    o.nontrivial = cut || disk::counts().total_errors() > 0;
    o.count("files cut", cut as u64);
    o.digest = sig_of(&got);
    for a in &got {
        if let Some(q) = &a.q {
            if let Err(e) = acceptable(&t, q, &a.ob, cut, unc) {
                let class = if let Ob::Panic(p) = &a.ob { panic_class(p) } else { format!("wrong:{}{}", qname(q), kind(f)) };
                return viol(o, class, format!("op {}: {e}", a.op));
            }
        } else if let Ob::Panic(p) = &a.ob {
            return viol(o, panic_class(p), format!("open panicked: {p}"));
        }
    }
}

// ------------------------------------------------------------------ C04

fn gen_c04(s: &mut Scen, r: &mut Rng) {
    let mut fs = a_file(r);
    let f = syn(&fs);
    let n = if r.chance(2, 3) { r.range(1, 3) } else { r.range(1, 12) } as usize;
    fs.muts = damage(r, &f, n);
    if r.chance(1, 4) {
        fs.name = "image".into();
    }
    s.files.push(fs);
    let mut hint = if r.chance(1, 3) || !f.exp.content { hint_for(&f) } else { 0 };
    if r.chance(1, 20) {
        // the wrong reader
        hint = wrong_hint(r);
    }
    s.ops.push(Op::Open(0, 0, how(r), hint));
    let n = r.range(5, 60) as usize;
    for q in some_queries(r, &f, n) {
        s.ops.push(Op::Q(0, q));
    }
}

/// Any type, those that have no reader (10, 16) included.
fn wrong_hint(r: &mut Rng) -> u32 {
    *r.pick(&[1u32, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 100])
}

fn run_c04(s: &Scen, files: &[Loaded], o: &mut Out) {
    let got = history(s, files, false, true);
    o.nontrivial = files[0].damaged;
    o.digest = sig_of(&got);
    o.count("answers", got.len() as u64);
    o.count("answers that deliver", got.iter().filter(|a| a.ob.is_ok()).count() as u64);
    no_panic(o, &got);
}

// ------------------------------------------------------------------ C05

fn gen_c05(s: &mut Scen, r: &mut Rng) {
    let mut fs = a_file(r);
    let f = syn(&fs);
    if r.chance(1, 5) {
        fs.muts = damage(r, &f, 1);
    }
    s.files.push(fs);
    let hint = if r.chance(1, 3) || !f.exp.content { hint_for(&f) } else { 0 };
    let h = how(r);
    s.ops.push(Op::Open(0, 0, h, hint));
    let all = queries(&f);
    let n = r.range(2, 24) as usize;
    let mut last: Option<Q> = None;
    for _ in 0..n {
        let q = match (&last, r.us(6)) {
            (Some(q), 0) => q.clone(),
            (_, 1 | 2) => r.pick(&[Q::Sizes, Q::Raw(false), Q::Raw(true), Q::MetaAll, Q::Dump, Q::Thumb(160), Q::TypeId, Q::Ifd(2), Q::Render(3, 0), Q::Matrix(1)]).clone(),
            _ => r.pick(&all).clone(),
        };
        s.ops.push(Op::Q(0, q.clone()));
        last = Some(q);
    }
}

fn run_c05(s: &Scen, files: &[Loaded], o: &mut Out) {
    let got = history(s, files, false, false);
    let Some(Op::Open(_, _, how, hint)) = s.ops.first().cloned() else { return };
    o.nontrivial = got.len() > 2;
    o.digest = sig_of(&got);
    o.sig = o.digest;
    let mut fresh: BTreeMap<Q, Ob> = BTreeMap::new();
    for a in &got {
        let Some(q) = &a.q else { continue };
        if !fresh.contains_key(q) {
            match open(&files[0], how, hint) {
                Ok(h) => {
                    fresh.insert(q.clone(), query(&h, q));
                    close(h);
                }
                Err(e) => return viol(o, "reopen", format!("a second handle cannot be opened: {}", e.brief())),
            }
        }
        if fresh[q] != a.ob {
            return viol(o, format!("history:{}", qname(q)), format!("op {} {q:?}: after earlier queries: {}; as first query: {}", a.op, a.ob.brief(), fresh[q].brief()));
        }
    }
}

// ------------------------------------------------------------------ C06

fn gen_c06(s: &mut Scen, r: &mut Rng) {
    let mut fs = a_file(r);
    let f = syn(&fs);
    if r.chance(1, 4) {
        fs.muts = damage(r, &f, 1);
    }
    s.files.push(fs);
    for q in some_queries(r, &f, 25) {
        s.ops.push(Op::Q(0, q));
    }
    s.set("c", (r.chance(2, 3)) as i64);
    s.set("cap", cap(r) as i64);
    s.set("other", r.range(0, 7) as i64);
}

fn run_c06(s: &Scen, files: &[Loaded], o: &mut Out) {
    let f = &files[0];
    let Some(syn) = &f.syn else { return };
    let right = hint_for(&syn);
    let mut ways: Vec<(&str, String, How, u32)> = vec![("by path with its type", f.name.clone(), How::Path, right), ("from memory with its type", f.name.clone(), How::Mem, right)];
    disk::put("plain", f.bytes.clone());
    let up = f.name.to_uppercase();
    disk::put(&up, f.bytes.clone());
    let cap = s.get("cap") as u16;
    ways.push(("through a reader with its type", f.name.clone(), How::Io(cap), right));
    ways.push(("by path with its type, no extension", "plain".into(), How::Path, right));
    // the type given counts, not what the name says
    let other = ["x.dng", "x.NEF", "x.cr2", "x.cr3", "x.raf", "x.tif", "x.jpg", "x.orf"][(s.get("other") as usize) % 8];
    disk::put(other, f.bytes.clone());
    ways.push(("by path with its type, another extension", other.into(), How::Path, right));
    if f.name.contains('.') && !["crw", "mrw", "MRW"].contains(&syn.ext) {
        ways.push(("by path and extension", f.name.clone(), How::Path, 0));
        ways.push(("by path and upper-case extension", up, How::Path, 0));
    }
    if syn.exp.content && !f.damaged {
        ways.push(("from memory by content", f.name.clone(), How::Mem, 0));
        ways.push(("through a reader by content", f.name.clone(), How::Io(cap), 0));
        ways.push(("by path by content", "plain".into(), How::Path, 0));
    }
    let mut first: Option<Vec<(String, u64, String)>> = None;
    for (what, name, how, hint) in &ways {
        let mut v = vec![];
        match open_as(f, name, *how, *hint) {
            Ok(h) => {
                for (i, op) in s.ops.iter().enumerate() {
                    if let Op::Q(_, q) = op {
                        let ob = query(&h, q);
                        v.push((format!("op {i} {q:?}"), ob.digest(), ob.brief()));
                    }
                }
                close(h);
            }
            Err(e) => v.push(("op 0 open".into(), e.digest(), e.brief())),
        }
        o.count(&format!("opened {what}"), 1);
        match &first {
            None => {
                o.digest = v.iter().fold(1, |h, x| simrt::rng::mix(h ^ x.1));
                first = Some(v)
            }
            Some(b) => diff(o, "opened", b, &v, ways[0].0, what),
        }
    }
    o.nontrivial = true;
    if s.get("c") != 0 && o.viol.is_none() {
        crate::capi::compare(s, f, o);
    }
}

// ------------------------------------------------------------------ C07

fn gen_c07(s: &mut Scen, r: &mut Rng) {
    // files whose raw data is decoded in parallel
    let mut fs = a_file(r);
    for _ in 0..60 {
        let f = syn(&fs);
        if f.exp.raw.as_ref().map(|x| x.parallel).unwrap_or(false) {
            break;
        }
        fs = a_file(r);
    }
    let f = syn(&fs);
    if r.chance(1, 4) {
        // damage in the compressed streams
        let st: Vec<_> = f.marks.iter().filter(|m| m.kind == synth::tb::MK::Stream).collect();
        if !st.is_empty() {
            for _ in 0..r.range(1, 2) {
                let m = *r.pick(&st);
                fs.muts.push(Mut::Set(m.off + r.us(m.len.max(1)), vec![r.u8()]));
            }
        }
    }
    s.files.push(fs);
    s.width = *r.pick(&[1usize, 2, 2, 3, 4, 4, 8]);
    s.qmax = *r.pick(&[3u32, 10, 40, 200, 1000]);
    s.ops.push(Op::Open(0, 0, how(r), hint_for(&f)));
    s.ops.push(Op::Q(0, Q::Raw(false)));
    if r.chance(1, 4) {
        s.ops.push(Op::Q(0, Q::Render(3, 0)));
    }
}

pub fn tape(s: &Scen) -> Tape {
    match &s.tape {
        Some(t) => Tape::Fixed(t.clone(), 0),
        None => Tape::Seeded(Rng::new(s.tape_seed)),
    }
}

fn run_c07(s: &Scen, files: &[Loaded], o: &mut Out) {
    clock::set_budget(20 * step_budget(files));
    let (r, rep) = sched::run(tape(s), s.width, s.qmax, || history(s, files, false, false));
    clock::clear_budget();
    o.tape = rep.tape;
    o.count("schedule switches", rep.switches);
    o.count("preemptions", rep.preempts);
    o.count("parallel tasks", rep.tasks as u64);
    o.nontrivial = rep.switches > 0;
    o.sig = rep.hash;
    let got = match r {
        Ok(g) => g,
        Err(_) => return viol(o, "panic:scheduler", "a parallel part panicked through the harness"),
    };
    // the same file decoded by one thread
    let alone = history(s, files, false, false);
    let kind = |a: &Ob| match a {
        Ob::Err(_) => 1,
        Ob::Panic(_) => 2,
        _ => 0,
    };
    o.digest = sig_of(&got);
    for (a, b) in got.iter().zip(&alone) {
        if a.ob != b.ob && !(kind(&a.ob) == 1 && kind(&b.ob) == 1) {
            return viol(o, format!("schedule:{}", a.q.as_ref().map(qname).unwrap_or_default()), format!("op {}: under this schedule: {}; sequentially: {}", a.op, a.ob.brief(), b.ob.brief()));
        }
    }
    if !files[0].damaged {
        for a in &got {
            if let (Some(Q::Raw(false)), Some(syn)) = (&a.q, &files[0].syn) {
                check_pixels(o, syn, &a.ob);
            }
        }
    }
}

fn check_pixels(o: &mut Out, f: &SynFile, ob: &Ob) {
    let Some(x) = &f.exp.raw else { return };
    let Some(px) = &x.pixels else { return };
    let want = synth::u16le(px);
    match ob {
        Ob::Raw(r) if r.data == want && (r.w, r.h) == (x.w, x.h) => {}
        Ob::Raw(r) => {
            let at = r.data.iter().zip(&want).position(|(a, b)| a != b).map(|p| p / 2);
            viol(
                o,
                "pixels",
                format!("{} {:?}: delivered {}x{} ({} samples), stored {}x{} ({} samples), first difference at sample {:?}", f.fmt, f.tags, r.w, r.h, r.data.len() / 2, x.w, x.h, px.len(), at),
            )
        }
        ob => viol(o, "pixels:none", format!("{} {:?}: well-formed raw data not delivered: {}", f.fmt, f.tags, ob.brief())),
    }
}

// ------------------------------------------------------------------ C08

fn gen_c08(s: &mut Scen, r: &mut Rng) {
    let n = r.range(2, 4) as usize;
    // what is kept for one format or camera must not reach another file
    let alike = r.chance(1, 2);
    for i in 0..n {
        let mut fs = if i > 0 && r.chance(1, 4) {
            s.files[0].clone()
        } else if i > 0 && alike {
            FileSpec::new(&s.files[0].fmt.clone(), r.u64() & 0xffff_ffff)
        } else {
            a_file(r)
        };
        let f = syn(&fs);
        if r.chance(1, 5) {
            let k = r.range(1, 2) as usize;
            fs.muts = damage(r, &f, k);
        }
        fs.name = format!("t{i}.{}", f.ext);
        s.files.push(fs);
        s.ops.push(Op::Open(i, i, how(r), hint_for(&f)));
        let k = r.range(2, 8) as usize;
        for q in some_queries(r, &f, k) {
            s.ops.push(Op::Q(i, q));
        }
        if alike && r.chance(1, 2) {
            for _ in 0..r.range(2, 8) {
                s.ops.push(Op::Q(i, r.pick(&[Q::Matrix(1), Q::Matrix(1), Q::Matrix(1), Q::Matrix(2), Q::TypeId]).clone()));
            }
        }
        if r.chance(1, 5) {
            // this thread's disk fails
            let a = s.faults.len();
            error_faults(r, s, i, &f, f.bytes.len());
            s.set(&format!("f{i}a"), a as i64);
            s.set(&format!("f{i}b"), s.faults.len() as i64);
        }
    }
    s.width = *r.pick(&[1usize, 2, 4]);
    s.qmax = *r.pick(&[5u32, 30, 200, 1000]);
}

fn thread_ops(s: &Scen, i: usize) -> Scen {
    let mut t = s.clone();
    t.ops.retain(|op| match op {
        Op::Open(h, ..) | Op::Q(h, _) | Op::Close(h) => *h == i,
        _ => false,
    });
    t
}

fn run_c08(s: &Scen, files: &[Loaded], o: &mut Out) {
    let n = files.len();
    // alone, in processes of their own
    let alone: Vec<_> = (0..n)
        .map(|i| {
            isolated(|| {
                s.set_faults(files, 0, 1000);
                digests(&history(&thread_ops(s, i), files, true, false))
            })
        })
        .collect();
    s.set_faults(files, 0, 1000);
    clock::set_budget(20 * step_budget(files));
    let res: Vec<std::sync::Mutex<Option<Vec<(String, u64, String)>>>> = (0..n).map(|_| std::sync::Mutex::new(None)).collect();
    let resp: &'static Vec<_> = Box::leak(Box::new(res));
    let sp: &'static Scen = Box::leak(Box::new(s.clone()));
    struct Ptr(*const [Loaded]);
    unsafe impl Send for Ptr {}
    unsafe impl Sync for Ptr {}
    let fp: &'static Ptr = Box::leak(Box::new(Ptr(files as *const _)));
    let (r, rep) = sched::run(tape(s), s.width, s.qmax, || {
        let ids: Vec<usize> = (0..n)
            .map(|i| {
                sched::spawn(
                    Box::new(move || {
                        let files: &[Loaded] = unsafe { &*fp.0 };
                        simrt::sched::set_hash_seed(sp.hash_seed ^ i as u64);
                        let v = digests(&history(&thread_ops(sp, i), files, true, false));
                        *resp[i].lock().unwrap() = Some(v);
                    }),
                    false,
                    usize::MAX,
                )
            })
            .collect();
        for id in ids {
            sched::join(id);
        }
    });
    clock::clear_budget();
    note_counts(o);
    o.tape = rep.tape;
    o.count("schedule switches", rep.switches);
    o.count("preemptions", rep.preempts);
    o.nontrivial = rep.preempts > 0;
    o.sig = rep.hash;
    if r.is_err() {
        return viol(o, "panic:thread", "a thread panicked through the harness");
    }
    for (i, a) in alone.iter().enumerate() {
        if a.first().map(|x| x.0 == "death").unwrap_or(false) {
            continue;
        }
        let g = resp[i].lock().unwrap().take();
        match g {
            Some(g) => {
                o.digest = g.iter().fold(o.digest, |h, x| simrt::rng::mix(h ^ x.1));
                diff(o, "thread", a, &g, "alone", "next to other threads")
            }
            None => viol(o, "thread:none", format!("thread {i} gave no result")),
        }
    }
}

// ------------------------------------------------------------------ C11

fn gen_c11(s: &mut Scen, r: &mut Rng) {
    let n = r.range(1, 2) as usize;
    for i in 0..n {
        let mut fs = a_file(r);
        let f = syn(&fs);
        // damaged or something else altogether at first, whole later
        let early = f.exp.content && r.chance(1, 8);
        match r.us(6) {
            // still being written
            _ if early => fs.muts.push(Mut::Trunc(r.us(16))),
            0 => fs.muts.push(Mut::Trunc(cut(r, &f))),
            1 => {
                let n = r.range(1, 3) as usize;
                fs.muts = damage(r, &f, n);
            }
            2 => fs.muts.push(Mut::Other(pick_fmt(r).to_string(), r.u64() & 0xffff_ffff)),
            _ => {}
        }
        if early || f.exp.content && r.chance(1, 3) {
            fs.name = format!("image{i}");
        }
        error_faults(r, s, i, &f, f.bytes.len());
        s.files.push(fs);
    }
    if r.chance(1, 3) {
        benign_faults(r, s, 0);
    }
    let hints: Vec<u32> = s
        .files
        .iter()
        .map(|f| {
            let y = syn(f);
            if y.exp.content && (r.chance(1, 2) || matches!(f.muts[..], [Mut::Trunc(0..16)])) {
                0
            } else {
                hint_for(&y)
            }
        })
        .collect();
    let early = r.chance(1, 3);
    if !early {
        s.ops.push(Op::Faults(0, 100));
    }
    for k in 0..r.range(1, 3) as usize {
        let f = r.us(n);
        s.ops.push(Op::Open(k, f, How::Path, hints[f]));
        if early && k == 0 {
            s.ops.push(Op::Faults(0, 100));
        }
        let y = syn(&s.files[f].clone());
        let c = r.range(1, 8) as usize;
        for q in some_queries(r, &y, c) {
            s.ops.push(Op::Q(k, q));
        }
        if r.chance(1, 3) {
            s.ops.push(Op::Close(k));
        }
    }
    s.ops.push(Op::Heal);
    // repeat on the same handles
    let again: Vec<Op> = s.ops.iter().filter(|o| matches!(o, Op::Q(..))).cloned().collect();
    for op in again {
        if r.chance(2, 3) {
            s.ops.push(op);
        }
    }
    // and afresh
    for f in 0..n {
        s.ops.push(Op::Open(100 + f, f, How::Path, hints[f]));
        let y = syn(&s.files[f].clone());
        for q in some_queries(r, &y, 12) {
            s.ops.push(Op::Q(100 + f, q));
        }
    }
}

fn run_c11(s: &Scen, files: &[Loaded], o: &mut Out) {
    // reference: the fresh part alone, in an undisturbed process
    let mut calm = s.clone();
    calm.ops.retain(|op| matches!(op, Op::Open(h, ..) | Op::Q(h, _) if *h >= 100));
    let want = isolated(|| {
        for f in files.iter().filter(|f| f.damaged) {
            disk::put(&f.name, f.orig.clone());
        }
        digests(&history(&calm, files, false, false))
    });
    let got = history(s, files, true, true);
    note_counts(o);
    o.nontrivial = disk::counts().total_errors() > 0 || files.iter().any(|f| f.damaged);
    o.digest = sig_of(&got);
    no_panic(o, &got);
    let heal = s.ops.iter().position(|x| *x == Op::Heal).unwrap_or(0);
    let fresh: Vec<(String, u64, String)> = digests(&got).into_iter().zip(&got).filter(|(_, a)| a.h >= 100).map(|(d, _)| d).collect();
    let strip = |v: &[(String, u64, String)]| v.iter().map(|x| (format!("op - {}", x.0.split(' ').skip(2).collect::<Vec<_>>().join(" ")), x.1, x.2.clone())).collect::<Vec<_>>();
    diff(o, "reopened", &strip(&want), &strip(&fresh), "undisturbed process", "after faults stopped");
    // repeats on a disturbed handle
    for f in 0..files.len() {
        let qs: Vec<Q> = got.iter().filter(|a| a.file == f && a.op > heal && a.h < 100).filter_map(|a| a.q.clone()).collect();
        // the content changed under the handle
        if qs.is_empty() || files[f].damaged {
            continue;
        }
        let hint = files[f].syn.as_ref().map(hint_for).unwrap_or(0);
        let mut t = truth(&files[f].name, hint, &qs);
        if let Some(y) = &files[f].syn {
            t.add_stored(&y.exp);
        }
        for a in got.iter().filter(|a| a.file == f && a.op > heal && a.h < 100) {
            if let Some(q) = &a.q {
                if let Err(e) = acceptable(&t, q, &a.ob, false, false) {
                    viol(o, format!("repeat:{}", qname(q)), format!("op {} repeated after the faults stopped: {e}", a.op));
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C12

fn gen_c12(s: &mut Scen, r: &mut Rng) {
    let mut fs = a_file(r);
    let f = syn(&fs);
    if r.chance(1, 3) {
        let n = r.range(1, 3) as usize;
        fs.muts = damage(r, &f, n);
    }
    s.files.push(fs);
    let h = how(r);
    s.ops.push(Op::Open(0, 0, h, hint_for(&f)));
    for q in some_queries(r, &f, 20) {
        s.ops.push(Op::Q(0, q));
    }
    // the other world
    s.set("poison", (r.u64() >> 1) as i64);
    s.set("hash", (r.u64() >> 1) as i64);
    s.set("log", *r.pick(&[0i64, 0, 4, 5]));
    s.set("env", r.below(3) as i64);
    s.set("dir", r.below(2) as i64);
    s.set("history", r.below(3) as i64);
    s.set("width", *r.pick(&[1i64, 1, 4]));
    // other files handled before
    for _ in 0..2 {
        let fs = a_file(r);
        s.files.push(fs);
    }
    s.qmax = 100;
}

fn run_c12(s: &Scen, files: &[Loaded], o: &mut Out) {
    let a = isolated(|| digests(&history(s, files, false, false)));
    let b = isolated(|| {
        let mut s2 = s.clone();
        s2.poison = s.get("poison") as u64;
        s2.hash_seed = s.get("hash") as u64;
        s2.log = s.get("log") as u8;
        s2.enter(files);
        match s.get("env") {
            1 => unsafe {
                libc::setenv(c"TZ".as_ptr(), c"Pacific/Kiritimati".as_ptr(), 1);
                libc::setenv(c"LANG".as_ptr(), c"tr_TR.UTF-8".as_ptr(), 1);
                libc::setenv(c"LC_ALL".as_ptr(), c"tr_TR.UTF-8".as_ptr(), 1);
            },
            2 => unsafe {
                libc::setenv(c"RUST_BACKTRACE".as_ptr(), c"0".as_ptr(), 1);
                libc::setenv(c"RAYON_NUM_THREADS".as_ptr(), c"3".as_ptr(), 1);
                libc::clearenv();
            },
            _ => {}
        }
        if s.get("dir") == 1 {
            unsafe { libc::chdir(c"/".as_ptr()) };
        }
        if s.get("history") > 0 {
            for f in files.iter().skip(1).take(s.get("history") as usize) {
                if let Ok(h) = open(f, How::Path, 0) {
                    if let Some(y) = &f.syn {
                        for q in queries(y) {
                            query(&h, &q);
                        }
                    }
                    close(h);
                }
            }
        }
        if s.get("width") > 1 {
            let (r, _) = sched::run(Tape::Seeded(Rng::new(s.tape_seed)), s.get("width") as usize, s.qmax, || history(&s2, files, false, false));
            digests(&r.unwrap_or_default())
        } else {
            digests(&history(&s2, files, false, false))
        }
    });
    o.nontrivial = true;
    o.count("worlds compared", 2);
    o.digest = a.iter().fold(1, |h, x| simrt::rng::mix(h ^ x.1));
    o.sig = o.digest;
    if a.first().map(|x| x.0 == "death").unwrap_or(false) && b.first().map(|x| x.0 == "death").unwrap_or(false) {
        o.skipped = Some("died in both worlds".into());
        return;
    }
    diff(o, "world", &a, &b, "in one process", "in another");
}

// ------------------------------------------------------------------ C13

fn gen_c13(s: &mut Scen, r: &mut Rng) {
    let mut fs = a_file(r);
    let f = syn(&fs);
    let mut damaged = 0;
    match r.us(6) {
        0 => {
            fs.muts.push(Mut::Trunc(cut(r, &f)));
            damaged = 1;
        }
        1 => {
            let n = r.us(30);
            fs.muts.push(Mut::Trunc(n));
            damaged = 1;
        }
        2 => {
            let n = r.us(4000);
            fs.muts.push(Mut::Append(r.bytes(n)));
            // the directory of these is found from the end of the file
            damaged = (f.fmt == "crw" || f.fmt == "cr3") as i64;
        }
        _ => {}
    }
    fs.name = r
        .pick(&["image", "image.bin", "a.b.c", ".hidden", "dng", "nef.", "x.txt", "x.dngx", "x.jp", "x.raw2", "naïve", "x.\u{e9}t\u{e9}"])
        .to_string();
    s.set("damaged", damaged);
    if r.chance(1, 4) {
        error_faults(r, s, 0, &f, f.bytes.len().min(4096));
        s.set("damaged", 1);
    } else if r.chance(1, 3) {
        benign_faults(r, s, 0);
    }
    s.set("ext", r.below(6) as i64);
    s.files.push(fs);
    s.ops.push(Op::Faults(0, 100));
    s.ops.push(Op::Open(0, 0, how(r), 0));
    for q in [Q::Type, Q::Mime, Q::TypeId, Q::Vendor, Q::Sizes, Q::Raw(true), Q::MetaAll] {
        s.ops.push(Op::Q(0, q));
    }
}

/// Extensions and the types they name.
pub const EXTS: &[(&str, &str)] = &[
    ("arw", "Arw"),
    ("cr2", "Cr2"),
    ("cr3", "Cr3"),
    ("dng", "Dng"),
    ("erf", "Erf"),
    ("gpr", "Dng"),
    ("jpg", "Jpeg"),
    ("jpeg", "Jpeg"),
    ("nef", "Nef"),
    ("nrw", "Nef"),
    ("orf", "Orf"),
    ("pef", "Pef"),
    ("raf", "Raf"),
    ("raw", "Rw2"),
    ("rw2", "Rw2"),
    ("rwl", "Rw2"),
    ("sr2", "Arw"),
];

fn run_c13(s: &Scen, files: &[Loaded], o: &mut Out) {
    let f = &files[0];
    let Some(y) = &f.syn else { return };
    let e = &y.exp;
    let got = history(s, files, true, true);
    note_counts(o);
    o.digest = sig_of(&got);
    o.nontrivial = true;
    no_panic(o, &got);
    let damaged = s.get("damaged") != 0;
    let ty = got.iter().find(|a| a.q == Some(Q::Type));
    if e.content {
        match ty {
            Some(a) => {
                if a.ob != Ob::Val(e.type_.to_string()) {
                    return viol(o, "type", format!("{} identified as {}", e.type_, a.ob.brief()));
                }
                o.count("identified", 1);
            }
            None if !damaged => return viol(o, "type:none", format!("{} not identified: {}", e.type_, got.first().map(|a| a.ob.brief()).unwrap_or_default())),
            None => o.count("not identified", 1),
        }
    }
    if !damaged {
        for a in &got {
            match (&a.q, &a.ob) {
                (Some(Q::Mime), Ob::Val(m)) if e.content && m != e.mime => return viol(o, "mime", format!("{} reports media type {m}", e.type_)),
                (Some(Q::TypeId), ob) if e.content => {
                    if let Some(id) = e.type_id {
                        if *ob != Ob::Val(format!("{id:#010x}")) {
                            return viol(o, "typeid", format!("{} {:?}: camera {id:#x} reported as {}", e.type_, y.tags, ob.brief()));
                        }
                    }
                }
                (Some(Q::Vendor), ob) if e.content => {
                    if let Some(id) = e.type_id {
                        if *ob != Ob::Val(format!("{}", id >> 16)) {
                            return viol(o, "vendor", format!("{}: vendor {} reported as {}", e.type_, id >> 16, ob.brief()));
                        }
                    }
                }
                _ => {}
            }
        }
        // detection leaves the file usable: same answers as with the type given
        if e.content && o.viol.is_none() {
            let mut t = s.clone();
            t.ops.retain(|x| matches!(x, Op::Open(..) | Op::Q(..)));
            t.faults.clear();
            if let Some(Op::Open(_, _, _, h)) = t.ops.first_mut() {
                *h = hint_for(y);
            }
            disk::reset();
            disk::put(&f.name, f.bytes.clone());
            let told = history(&t, files, false, false);
            let strip = |v: Vec<(String, u64, String)>| v.into_iter().map(|x| (format!("op - {}", x.0.split(' ').skip(2).collect::<Vec<_>>().join(" ")), x.1, x.2)).collect::<Vec<_>>();
            diff(o, "detected", &strip(digests(&told)), &strip(digests(&got)), "type given", "type detected");
        }
        // the same bytes under a known extension, in any case
        let (_, want) = EXTS.iter().find(|x| x.0 == y.ext).copied().unwrap_or(("", ""));
        if !want.is_empty() && o.viol.is_none() {
            let ext: String = y.ext.chars().enumerate().map(|(i, c)| if (s.get("ext") >> (i % 3)) & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
            let name = format!("photo.{ext}");
            disk::put(&name, f.bytes.clone());
            match open_path(&name, None) {
                Ok(h) => {
                    let t = query(&h, &Q::Type);
                    let w = if y.fmt == "sr2" { "Arw" } else { want };
                    if t != Ob::Val(w.to_string()) {
                        viol(o, "extension", format!("{name} opened as {}", t.brief()));
                    }
                    close(h);
                }
                Err(e) => viol(o, "extension:none", format!("{name}: {}", e.brief())),
            }
        }
    }
}

// ------------------------------------------------------------------ C14, C15, C16

fn gen_exact(s: &mut Scen, r: &mut Rng) {
    let fs = a_file(r);
    let f = syn(&fs);
    s.files.push(fs);
    let mut qs: Vec<Q> = vec![];
    match s.prop.as_str() {
        "C14" => {
            qs.push(Q::Sizes);
            let dims: Vec<u32> = f.exp.thumbs.as_ref().map(|t| t.iter().map(|t| t.dim).collect()).unwrap_or_default();
            for d in &dims {
                qs.push(Q::Thumb(*d));
                qs.push(Q::Thumb(d + 1));
                qs.push(Q::Thumb(d.saturating_sub(1)));
            }
            for d in [0, 1, u32::MAX] {
                qs.push(Q::Thumb(d));
            }
            for _ in 0..3 {
                qs.push(Q::Thumb(r.range(1, 3000) as u32));
            }
        }
        "C15" => {
            qs.push(Q::Raw(true));
            qs.push(Q::Raw(false));
            for i in 0..4 {
                qs.push(Q::Matrix(i));
                qs.push(Q::Illum(i));
            }
        }
        _ => {
            qs.push(Q::MetaAll);
            qs.push(Q::Orient);
            for (k, _) in &f.exp.meta {
                qs.push(Q::Meta(k.clone()));
            }
            for k in &f.exp.absent {
                qs.push(Q::Meta(k.clone()));
            }
            for (n, d) in &f.exp.dirs {
                for (t, _) in d {
                    qs.push(Q::Entry(*n, *t));
                }
                // not stored
                for t in [0xfefeu16, 0x0b0b] {
                    if !d.iter().any(|x| x.0 == t) {
                        qs.push(Q::Entry(*n, t));
                    }
                }
            }
            for n in &f.exp.no_dirs {
                qs.push(Q::Ifd(*n));
            }
            for (n, _) in &f.exp.names {
                qs.push(Q::Ifd(*n));
            }
        }
    }
    if r.chance(1, 2) {
        r.shuffle(&mut qs);
    }
    if r.chance(1, 3) {
        // other queries first
        for q in some_queries(r, &f, 3) {
            qs.insert(0, q);
        }
    }
    s.ops.push(Op::Open(0, 0, how(r), hint_for(&f)));
    for q in qs {
        s.ops.push(Op::Q(0, q));
    }
    // exact under any legal pattern of reads
    if r.chance(1, 3) {
        benign_faults(r, s, 0);
        s.ops.insert(0, Op::Faults(0, 100));
    }
}

pub fn select(sizes: &[u32], want: u32) -> Option<u32> {
    if sizes.contains(&want) {
        return Some(want);
    }
    sizes.iter().filter(|s| **s > want).min().or_else(|| sizes.iter().filter(|s| **s < want).max()).copied()
}

fn check_thumb(o: &mut Out, e: &Expect, q: &Q, ob: &Ob, tags: &[String]) {
    let Some(th) = &e.thumbs else { return };
    let mut dims: Vec<u32> = th.iter().map(|t| t.dim).collect();
    dims.sort();
    match q {
        Q::Sizes => {
            // sorted, duplicates allowed to appear once or as often as stored
            let mut d2 = dims.clone();
            d2.dedup();
            let got = match ob {
                Ob::Val(v) => v.trim_matches(|c| c == '[' || c == ']').split(", ").filter(|x| !x.is_empty()).filter_map(|x| x.parse::<u32>().ok()).collect::<Vec<_>>(),
                Ob::Absent => vec![],
                ob => return viol(o, "sizes", format!("sizes: {}", ob.brief())),
            };
            let mut g = got.clone();
            g.sort();
            g.dedup();
            if g != d2 || got.len() > dims.len() {
                viol(o, "sizes", format!("stored previews {dims:?}, reported {got:?} {tags:?}"));
            }
        }
        Q::Thumb(0) => {
            if ob.is_ok() || matches!(ob, Ob::Panic(_)) {
                viol(o, "size0", format!("size 0: {}", ob.brief()));
            }
        }
        Q::Thumb(n) => match select(&dims, *n) {
            None => {
                if *ob != Ob::Err("NotFound".into()) {
                    viol(o, "no thumbnail", format!("file without previews, size {n}: {}", ob.brief()));
                }
            }
            Some(d) => match ob {
                Ob::Thumb { w, h, fmt, data, .. } => {
                    if !th.iter().any(|t| t.dim == d && t.w == *w && t.h == *h && t.fmt == fmt && t.data == *data) {
                        let at = th.iter().find(|t| t.dim == d).map(|t| (t.w, t.h, t.fmt, t.data.len(), hash(&t.data)));
                        viol(o, "thumbnail", format!("size {n} of {dims:?} must select {d}: stored {at:?}, delivered {} {tags:?}", ob.brief()));
                    }
                }
                ob => viol(o, "thumbnail:none", format!("size {n} of {dims:?}: {} {tags:?}", ob.brief())),
            },
        },
        _ => {}
    }
}

/// The colour matrices and their illuminants: the file's, or else those built in for the camera.
fn check_colour(o: &mut Out, y: &SynFile, i: u8, q: &Q, ob: &Ob) {
    let Some(want) = y.exp.raw.as_ref().and_then(|x| match i {
        1 => x.attrs.get("matrix1").and_then(|v| v.first()).cloned(),
        2 => x.attrs.get("matrix2").and_then(|v| v.first()).cloned(),
        _ => Some(String::new()),
    }) else {
        return;
    };
    let (ill, m) = want.split_once(' ').unwrap_or(("Unknown", ""));
    if let Q::Illum(_) = q {
        if *ob != Ob::Val(ill.into()) {
            viol(o, "colour:illuminant", format!("{} {:?}: illuminant {i} is {ill}, reported {}", y.fmt, y.tags, ob.brief()));
        }
        return;
    }
    let m: Vec<u64> = m.trim_matches(|c| c == '[' || c == ']').split(", ").filter_map(|v| v.parse::<f64>().ok()).map(f64::to_bits).collect();
    let ok = match ob {
        Ob::Val(v) => !m.is_empty() && v.split_once(' ').map(|v| v.1 == format!("{m:?}")).unwrap_or(false),
        Ob::Err(_) => m.is_empty(),
        _ => false,
    };
    if !ok {
        viol(o, "colour:matrix", format!("{} {:?}: matrix {i} is {want}, reported {}", y.fmt, y.tags, ob.brief()));
    }
}

fn check_raw(o: &mut Out, y: &SynFile, skip: bool, ob: &Ob) {
    let Some(x) = &y.exp.raw else { return };
    let r = match ob {
        Ob::Raw(r) => r,
        ob => {
            if x.pixels.is_none() && x.stored.is_none() {
                return;
            }
            if skip && x.stored.is_none() {
                return;
            }
            return viol(o, "raw:none", format!("{} {:?}: raw data (skip {skip}) not delivered: {}", y.fmt, y.tags, ob.brief()));
        }
    };
    let what = format!("{} {:?} (skip {skip})", y.fmt, y.tags);
    if skip {
        if let Some((dt, kind, data)) = &x.stored {
            if r.kind != *kind || r.dtype != *dt {
                return viol(o, "stored:type", format!("{what}: {} kind {}, expected {dt} kind {kind}", r.dtype, r.kind));
            }
            if r.data != *data {
                let at = r.data.iter().zip(data).position(|(a, b)| a != b);
                return viol(o, "stored:bytes", format!("{what}: {} bytes, stored {}, first difference at {at:?}", r.data.len(), data.len()));
            }
        }
        if let Some((w, h)) = x.stored_dim {
            if (r.w, r.h) != (w, h) {
                return viol(o, "stored:dimensions", format!("{what}: {}x{}, expected {w}x{h}", r.w, r.h));
            }
        }
        return;
    }
    check_pixels(o, y, ob);
    if o.viol.is_some() {
        return;
    }
    if x.pixels.is_some() {
        if r.dtype != x.dtype {
            return viol(o, "raw:type", format!("{what}: {}, expected {}", r.dtype, x.dtype));
        }
        if x.bpc != 0 && r.bpc != x.bpc {
            return viol(o, "raw:bpc", format!("{what}: {} bits, stored {}", r.bpc, x.bpc));
        }
    }
    if x.pixels.is_some() || x.stored.is_some() {
        for (k, want) in &x.attrs {
            let got = r.attrs.get(k).cloned().unwrap_or_default();
            if !want.contains(&got) {
                return viol(o, format!("raw:{k}"), format!("{what}: {k} is {got}, stored {want:?}"));
            }
        }
    }
}

fn run_exact(s: &Scen, files: &[Loaded], o: &mut Out) {
    let got = history(s, files, true, true);
    note_counts(o);
    o.digest = sig_of(&got);
    let Some(y) = &files[0].syn else { return };
    if files[0].damaged {
        return;
    }
    let e = &y.exp;
    for t in &y.tags {
        o.count(&format!("has {}:{t}", y.fmt), 1);
    }
    if let Some(a) = got.first() {
        if !a.ob.is_ok() {
            return viol(o, "open", format!("{} cannot be opened: {}", y.fmt, a.ob.brief()));
        }
    }
    for a in &got {
        let Some(q) = &a.q else { continue };
        match s.prop.as_str() {
            "C14" => {
                o.nontrivial |= e.thumbs.is_some();
                check_thumb(o, e, q, &a.ob, &y.tags)
            }
            "C15" => {
                o.nontrivial |= e.raw.is_some();
                match q {
                    Q::Raw(skip) => check_raw(o, y, *skip, &a.ob),
                    Q::Matrix(i) | Q::Illum(i) => check_colour(o, y, *i, q, &a.ob),
                    _ => {}
                }
            }
            _ => {
                o.nontrivial |= e.meta_all.is_some() || !e.dirs.is_empty();
                check_meta(o, y, q, &a.ob, &got)
            }
        }
        if o.viol.is_some() {
            return;
        }
    }
}

fn check_meta(o: &mut Out, y: &SynFile, q: &Q, ob: &Ob, all: &[Answer]) {
    let e = &y.exp;
    match q {
        Q::MetaAll => {
            let Some(want) = &e.meta_all else { return };
            let Ob::Meta(got) = ob else { return viol(o, "enumeration:none", format!("{}: no enumeration: {}", y.fmt, ob.brief())) };
            // as a multiset: the order is not promised
            let mut w = want.clone();
            let mut g = got.clone();
            w.sort();
            g.sort();
            if w != g {
                let miss: Vec<_> = w.iter().filter(|x| !g.contains(x)).take(2).collect();
                let extra: Vec<_> = g.iter().filter(|x| !w.contains(x)).take(2).collect();
                return viol(o, "enumeration", format!("{} {:?}: {} entries stored, {} enumerated; missing {miss:?}; unexpected {extra:?}", y.fmt, y.tags, w.len(), g.len()));
            }
            // lookups agree with the enumeration
            for a in all {
                if let (Some(Q::Meta(k)), ob) = (&a.q, &a.ob) {
                    if let Some((_, v, _)) = got.iter().find(|x| x.0 == *k) {
                        let ok = matches!(ob, Ob::Val(s) if s.starts_with(v.as_str()));
                        if !ok && e.meta.iter().any(|x| x.0 == *k) {
                            return viol(o, "lookup", format!("{k} enumerated as {}, looked up as {}", clip(v), ob.brief()));
                        }
                    }
                }
            }
        }
        Q::Meta(k) => {
            if let Some((_, v)) = e.meta.iter().find(|x| x.0 == *k) {
                match ob {
                    Ob::Val(s) if s.starts_with(v.as_str()) => {}
                    ob => viol(o, "value", format!("{} {k}: stored {}, reported {}", y.fmt, clip(v), ob.brief())),
                }
            } else if e.absent.contains(k) && *ob != Ob::Absent {
                viol(o, "absent", format!("{} {k} is not stored, reported {}", y.fmt, ob.brief()));
            }
        }
        Q::Orient => {
            if let Some(n) = e.orient {
                if *ob != Ob::Val(n.to_string()) {
                    viol(o, "orientation", format!("{}: stored {n}, reported {}", y.fmt, ob.brief()));
                }
            }
        }
        Q::Entry(n, t) => {
            if let Some((_, d)) = e.dirs.iter().find(|x| x.0 == *n) {
                match d.iter().find(|x| x.0 == *t) {
                    Some((_, v)) => {
                        let want = synth::entry_text(v);
                        if *ob != Ob::Val(want.clone()) {
                            viol(o, "entry", format!("{} {:?} directory {n} entry {t:#x}: stored {}, reported {}", y.fmt, y.tags, clip(&want), ob.brief()));
                        }
                    }
                    None => {
                        if *t == 0xfefe && *ob != Ob::Absent {
                            viol(o, "entry:absent", format!("{} directory {n} has no entry {t:#x}, reported {}", y.fmt, ob.brief()));
                        }
                    }
                }
            }
        }
        Q::Ifd(n) => {
            if e.no_dirs.contains(n) && *ob != Ob::Absent {
                viol(o, "directory:absent", format!("{}: directory {n} is not stored, reported {}", y.fmt, ob.brief()));
            }
            if let (Some((_, t)), Ob::Val(s)) = (e.names.iter().find(|x| x.0 == *n), ob) {
                let want: Vec<&str> = crate::obs::TAGS.iter().map(|x| t.iter().find(|y| y.0 == *x).map(|y| y.1).unwrap_or("")).collect();
                let want = want.join(",");
                if let Some(got) = s.lines().find_map(|l| l.strip_prefix("names ")) {
                    if got != want {
                        viol(o, "tag name", format!("{} {:?}: directory {n} has the names {got} and not {want}", y.fmt, y.tags));
                    }
                }
            }
        }
        _ => {}
    }
}

// ------------------------------------------------------------------ C17

fn gen_c17(s: &mut Scen, r: &mut Rng) {
    let n = r.range(1, 2) as usize;
    for i in 0..n {
        let mut fs = a_file(r);
        let f = syn(&fs);
        if r.chance(1, 3) {
            let n = r.range(1, 3) as usize;
            fs.muts = damage(r, &f, n);
        }
        if r.chance(1, 3) {
            let a = s.faults.len();
            error_faults(r, s, i, &f, f.bytes.len());
            // only faults that repeat the same way
            let _ = a;
        }
        s.files.push(fs);
    }
    s.ops.push(Op::Faults(0, 100));
    for k in 0..r.range(1, 3) as usize {
        let f = r.us(n);
        let y = syn(&s.files[f].clone());
        let hint = match r.us(6) {
            0..=2 => hint_for(&y),
            3 | 4 => 0,
            // the wrong reader, or none
            _ => wrong_hint(r),
        };
        s.ops.push(Op::Open(k, f, how(r), hint));
        let c = r.range(0, 8) as usize;
        for q in some_queries(r, &y, c) {
            s.ops.push(Op::Q(k, q));
        }
        if r.chance(1, 2) {
            s.ops.push(Op::Close(k));
        }
    }
    s.set("c", r.chance(1, 2) as i64);
    crate::capi::gen_history(s, r, 1);
}

fn run_c17(s: &Scen, files: &[Loaded], o: &mut Out) {
    let mut seen: Vec<(i64, i64, i64)> = vec![];
    for round in 0..4 {
        disk::clear_faults();
        let fds = disk::open_fds();
        {
            let got = history(s, files, true, true);
            o.digest = sig_of(&got);
            no_panic_quiet(&got);
        }
        if s.get("c") != 0 {
            disk::clear_faults();
            s.set_faults(files, 0, 100);
            crate::capi::play(s, files, &mut crate::capi::Silent);
        }
        disk::clear_faults();
        let (n, b) = simrt::alloc::live();
        seen.push((disk::open_fds(), n, b));
        if disk::open_fds() != fds {
            return viol(o, "descriptors", format!("{} descriptors open after everything was released, {fds} before (round {round})", disk::open_fds()));
        }
    }
    note_counts(o);
    o.nontrivial = true;
    // the first round fills caches that stay
    let (a, b, c) = (seen[1], seen[2], seen[3]);
    if c.1 > b.1 && b.1 > a.1 {
        viol(o, "memory", format!("{} more allocations ({} bytes) stay with every repetition of the history", c.1 - b.1, c.2 - b.2));
    }
}
fn no_panic_quiet(_: &[Answer]) {}

// ------------------------------------------------------------------ C18

fn gen_c18(s: &mut Scen, r: &mut Rng) {
    let mut fs = a_file(r);
    let f = syn(&fs);
    let mode = r.us(3);
    if mode == 1 {
        let n = r.range(1, 3) as usize;
        fs.muts = damage(r, &f, n);
    }
    s.files.push(fs);
    if mode == 2 {
        error_faults(r, s, 0, &f, f.bytes.len());
    }
    s.set("hint", hint_for(&f) as i64);
    // the writer
    s.set("max", *r.pick(&[0i64, 1, 2, 3, 7, 64, 1000]));
    s.set("eintr", *r.pick(&[0i64, 0, 1, 2, 5]));
    s.set("wseed", (r.u64() >> 1) as i64);
    s.set("fail_at", if r.chance(2, 3) { r.range(0, 6000) as i64 } else { -1 });
    s.set("fail_how", r.below(5) as i64);
    s.set("heal_after", *r.pick(&[0i64, 0, 1, 3]));
    s.set("before", r.chance(1, 3) as i64);
    s.ops.push(Op::Faults(0, 100));
}

/// The output stream under the scenario's control.
pub struct SimWriter {
    pub out: Vec<u8>,
    pub max: usize,
    pub eintr: u64,
    pub rng: Rng,
    pub fail_at: Option<usize>,
    pub fail_how: i64,
    pub heal_after: i64,
    pub fails: u64,
    pub shorts: u64,
    pub eintrs: u64,
    pub calls: u64,
    last_eintr: bool,
}
impl SimWriter {
    pub fn new(s: &Scen) -> SimWriter {
        SimWriter {
            out: vec![],
            max: s.get("max") as usize,
            eintr: s.get("eintr") as u64,
            rng: Rng::new(s.get("wseed") as u64),
            fail_at: (s.get("fail_at") >= 0).then(|| s.get("fail_at") as usize),
            fail_how: s.get("fail_how"),
            heal_after: s.get("heal_after"),
            fails: 0,
            shorts: 0,
            eintrs: 0,
            calls: 0,
            last_eintr: false,
        }
    }
}
impl std::io::Write for SimWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        simrt::alloc::harness(|| {
            self.calls += 1;
            let mut n = b.len();
            if n == 0 {
                return Ok(0);
            }
            if self.eintr > 0 && !self.last_eintr && self.rng.chance(1, self.eintr + 1) {
                self.eintrs += 1;
                self.last_eintr = true;
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            self.last_eintr = false;
            if let Some(at) = self.fail_at {
                if self.out.len() >= at && !(self.heal_after > 0 && self.fails >= self.heal_after as u64) {
                    self.fails += 1;
                    return match self.fail_how {
                        0 => Err(std::io::Error::from_raw_os_error(libc::ENOSPC)),
                        1 => Err(std::io::Error::from_raw_os_error(libc::EPIPE)),
                        2 => Err(std::io::Error::from_raw_os_error(libc::EIO)),
                        3 => Ok(0),
                        _ => Err(std::io::ErrorKind::WouldBlock.into()),
                    };
                }
                if self.fails == 0 {
                    n = n.min(at - self.out.len());
                }
            }
            if self.max > 0 && n > self.max {
                n = self.max;
                self.shorts += 1;
            }
            self.out.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn run_c18(s: &Scen, files: &[Loaded], o: &mut Out) {
    let f = &files[0];
    let hint = s.get("hint") as u32;
    let mut whole = vec![];
    let mut ok = false;
    // the complete dump
    if let Ok(h) = open(f, How::Path, hint) {
        ok = guard(|| h.dump_file(&mut whole)).is_ok();
        close(h);
    }
    if ok && !f.damaged {
        if let Some(e) = f.syn.as_ref().map(|x| &x.exp) {
            if let Err((c, e)) = dump_lists(&e.dumped, &whole) {
                viol(o, format!("dump:{c}"), e);
            }
            o.count("directories found in dumps", e.dumped.len() as u64);
        }
    }
    disk::clear_faults();
    s.set_faults(files, 0, 100);
    let mut w = SimWriter::new(s);
    clock::set_budget(10 * step_budget(files));
    crate::worker::set_op_str("open");
    match open(f, How::Path, hint) {
        Ok(h) => {
            if s.get("before") != 0 {
                for q in [Q::TypeId, Q::Sizes, Q::MetaAll] {
                    query(&h, &q);
                }
            }
            crate::worker::set_op_str("Dump");
            let r = guard(|| h.dump_file(&mut w));
            crate::worker::end_op();
            if let Err(p) = r {
                viol(o, panic_class(&p), format!("dump panicked after {} bytes of output: {p}", w.out.len()));
            }
            close(h);
        }
        Err(Ob::Panic(p)) => viol(o, panic_class(&p), format!("open panicked: {p}")),
        Err(_) => {}
    }
    clock::clear_budget();
    note_counts(o);
    let input_faults = disk::counts().total_errors() > 0;
    o.count("fault:output fails", w.fails);
    o.count("fault:short write", w.shorts);
    o.count("fault:interrupted write", w.eintrs);
    o.nontrivial = w.fails + w.shorts + w.eintrs > 0 || input_faults;
    o.digest = hash(&w.out);
    o.sig = o.digest;
    if input_faults || !ok || o.viol.is_some() {
        return;
    }
    if w.fails == 0 {
        if w.out != whole {
            let at = w.out.iter().zip(&whole).position(|(a, b)| a != b);
            viol(o, "dump:differs", format!("{} bytes through short or interrupted writes, {} otherwise, first difference at {at:?}", w.out.len(), whole.len()));
        }
    } else if !is_prefix(if s.get("heal_after") > 0 { &w.out[..s.get("fail_at").max(0) as usize] } else { &w.out }, &whole) {
        let at = w.out.iter().zip(&whole).position(|(a, b)| a != b);
        viol(o, "dump:prefix", format!("output failed; what was written ({} bytes) is not a prefix of the dump ({}), differs at {at:?}", w.out.len(), whole.len()));
    }
}

/// Every directory is in the dump, with each of its entries once.
fn dump_lists(dirs: &[crate::synth::tb::Dumped], dump: &[u8]) -> Result<(), (&'static str, String)> {
    let text = String::from_utf8_lossy(dump);
    // open blocks, then complete ones; an entry belongs to the innermost open one
    let mut open: Vec<Vec<(u16, i16, u32, String)>> = vec![];
    let mut done = vec![];
    for l in text.split('\n') {
        let l = l.trim_start();
        if l.starts_with("<IFD ") {
            open.push(vec![]);
        } else if l.starts_with("</IFD>") {
            if let Some(b) = open.pop() {
                done.push(b);
            }
        } else if let (Some(b), Some(rest)) = (open.last_mut(), l.strip_prefix("<0x")) {
            let Some((id, rest)) = rest.split_once('=') else { continue };
            let Some((_, rest)) = rest.split_once(" [") else { continue };
            let Some((head, value)) = rest.split_once("] = ") else { continue };
            let Some((ty, head)) = head.split_once('=') else { continue };
            let Some(n) = head.split_whitespace().last() else { continue };
            if let (Ok(id), Ok(ty), Ok(n)) = (u16::from_str_radix(id, 16), ty.trim().parse(), n.parse()) {
                b.push((id, ty, n, value.to_string()));
            }
        }
    }
    for d in dirs {
        let mut tags: Vec<u16> = d.iter().map(|x| x.0).collect();
        tags.sort();
        tags.dedup();
        if tags.len() != d.len() {
            continue;
        }
        let mut same = done.iter().filter(|b| {
            let mut t: Vec<u16> = b.iter().map(|x| x.0).collect();
            t.sort();
            t == tags
        }).peekable();
        if same.peek().is_none() {
            return Err(("directory", format!("no directory with exactly the entries {tags:x?} in the dump")));
        }
        let bad = |b: &&Vec<(u16, i16, u32, String)>| d.iter().find_map(|e| {
            let x = b.iter().find(|x| x.0 == e.0).unwrap();
            (x.1 != e.1 || x.2 != e.2 || e.3.as_ref().is_some_and(|v| *v != x.3)).then(|| format!("entry {:x}: type {} count {} {:?} in the file, type {} count {} {:?} in the dump", e.0, e.1, e.2, e.3, x.1, x.2, x.3))
        });
        let all: Vec<Option<String>> = same.map(|b| bad(&b)).collect();
        if all.iter().all(|x| x.is_some()) {
            return Err(("entry", all[0].clone().unwrap()));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C19

fn gen_c19(s: &mut Scen, r: &mut Rng) {
    let mut fs = a_file(r);
    let f = syn(&fs);
    if r.chance(9, 10) {
        let n = r.range(1, 5) as usize;
        // sizes and counts matter most
        let mut k = 0;
        while fs.muts.len() < n && k < 50 {
            k += 1;
            for m in damage(r, &f, 1) {
                fs.muts.push(m);
            }
        }
    }
    s.files.push(fs);
    let hint = hint_for(&f);
    s.ops.push(Op::Open(0, 0, how(r), hint));
    let n = r.range(3, 30) as usize;
    for q in some_queries(r, &f, n) {
        s.ops.push(Op::Q(0, q));
    }
}

fn delivered(ob: &Ob) -> i64 {
    match ob {
        Ob::Raw(r) => r.data.len() as i64,
        Ob::Thumb { data, .. } => data.len() as i64,
        Ob::Meta(m) => m.iter().map(|e| (e.0.len() + e.1.len()) as i64).sum(),
        Ob::Text(t) => t.len() as i64,
        Ob::Val(v) => v.len() as i64,
        _ => 0,
    }
}

pub const MEM_BASE: i64 = 4 << 20;

fn run_c19(s: &Scen, files: &[Loaded], o: &mut Out) {
    let f = &files[0];
    let len = f.bytes.len() as i64;
    simrt::alloc::begin();
    // the process may never need this much
    simrt::alloc::set_budget(2 << 30);
    let mut h: Option<RawFileHandle> = None;
    o.nontrivial = f.damaged;
    for (i, op) in s.ops.iter().enumerate() {
        clock::set_budget(step_budget(files));
        simrt::alloc::reset_peak();
        let before = simrt::alloc::live().1;
        let (ob, q) = match op {
            Op::Open(_, _, how, hint) => match open(f, *how, *hint) {
                Ok(x) => {
                    h = Some(x);
                    (Ob::Absent, "open".to_string())
                }
                Err(e) => (e, "open".to_string()),
            },
            Op::Q(_, q) => match &h {
                Some(h) => (query(h, q), qname(q)),
                None => continue,
            },
            _ => continue,
        };
        clock::clear_budget();
        let used = simrt::alloc::peak() - before;
        o.digest = simrt::rng::mix(o.digest ^ ob.digest());
        let m = o.counts.entry("peak bytes of a query (max)".into()).or_default();
        *m = (*m).max(used as u64);
        let limit = MEM_BASE + 64 * len + 24 * delivered(&ob);
        if used > limit {
            return viol(o, format!("memory:{q}"), format!("op {i} {op:?} on a file of {len} bytes needed {used} bytes ({} in one request) and delivered {}", simrt::alloc::maxreq(), ob.brief()));
        }
    }
    if let Some(h) = h {
        close(h);
    }
}

// ------------------------------------------------------------------ C20

fn gen_c20(s: &mut Scen, r: &mut Rng) {
    let mut fs = a_file(r);
    let f = syn(&fs);
    if r.chance(1, 5) {
        fs.muts = damage(r, &f, 1);
    }
    s.files.push(fs);
    s.ops.push(Op::Open(0, 0, how(r), hint_for(&f)));
    let mut qs = vec![Q::Raw(false), Q::Render(0, 0), Q::Render(1, 0), Q::Render(2, 0), Q::Render(3, 0), Q::Render(r.below(4) as u8, r.below(4) as u8), Q::Raw(false), Q::Sizes, Q::Raw(true)];
    r.shuffle(&mut qs);
    for q in qs {
        s.ops.push(Op::Q(0, q));
    }
}

fn levels(s: &str) -> Vec<i64> {
    s.trim_matches(|c| c == '[' || c == ']').split(", ").filter_map(|x| x.parse().ok()).collect()
}

fn run_c20(s: &Scen, files: &[Loaded], o: &mut Out) {
    let got = history(s, files, false, true);
    o.digest = sig_of(&got);
    no_panic(o, &got);
    let mut raw: Option<RawOb> = None;
    let mut raw_err = false;
    for a in &got {
        if a.q == Some(Q::Raw(false)) {
            match &a.ob {
                Ob::Raw(r) => {
                    if let Some(p) = &raw {
                        if **r != *p {
                            return viol(o, "render:changes", format!("op {}: raw data differs after rendering: {}", a.op, a.ob.brief()));
                        }
                    }
                    raw = Some((**r).clone());
                }
                Ob::Err(_) => raw_err = true,
                _ => {}
            }
        }
    }
    for a in &got {
        let Some(Q::Render(st, _)) = &a.q else { continue };
        let Ob::Raw(im) = &a.ob else {
            o.count("rendering refused", 1);
            continue;
        };
        if raw_err {
            return viol(o, "render:invented", format!("op {}: the file has no usable raw data, yet rendering delivered {}", a.op, a.ob.brief()));
        }
        let Some(raw) = &raw else { continue };
        if raw.dtype != "Raw" {
            return viol(o, "render:undecoded", format!("op {}: rendered from undecoded data: {}", a.op, a.ob.brief()));
        }
        if *st > 0 && levels(&raw.attrs["whites"])[0] <= levels(&raw.attrs["blacks"])[0] {
            return viol(o, "render:levels", format!("op {}: white {} isn't above black {}, yet rendering delivered {}", a.op, raw.attrs["whites"], raw.attrs["blacks"], a.ob.brief()));
        }
        o.nontrivial = true;
        o.count(&format!("rendered to stage {st}"), 1);
        let px = |d: &[u8]| d.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect::<Vec<u16>>();
        let (mut rp, ip) = (px(&raw.data), px(&im.data));
        // a damaged file may hold more samples than pixels
        rp.truncate(raw.w as usize * raw.h as usize);
        match st {
            0 => {
                if rp != ip {
                    return viol(o, "render:raw", format!("op {}: the raw stage differs from the raw data: {}", a.op, a.ob.brief()));
                }
            }
            1 => {
                if im.w != raw.w || im.h != raw.h || ip.len() != rp.len() {
                    return viol(o, "render:linear size", format!("op {}: {} from {}", a.op, a.ob.brief(), Ob::Raw(Box::new(raw.clone())).brief()));
                }
                let lin = raw.attrs.get("lin").map(|x| x != "None").unwrap_or(false);
                let (b, w) = (levels(&raw.attrs["blacks"]), levels(&raw.attrs["whites"]));
                // one mapping, monotonic, from black to white level
                let mut map: BTreeMap<u16, u16> = BTreeMap::new();
                for (x, y) in rp.iter().zip(&ip) {
                    if let Some(z) = map.insert(*x, *y) {
                        if z != *y && b.iter().all(|v| *v == b[0]) && w.iter().all(|v| *v == w[0]) {
                            return viol(o, "render:linear map", format!("op {}: sample {x} maps to both {z} and {y}", a.op));
                        }
                    }
                }
                if !lin && w[0] > b[0] && b.iter().all(|v| *v == b[0]) && w.iter().all(|v| *v == w[0]) {
                    let range = (w[0] - b[0]) as f64;
                    let mut last = 0u16;
                    for (x, y) in &map {
                        if *y < last {
                            return viol(o, "render:monotonic", format!("op {}: sample {x} maps to {y}, below a smaller sample's {last} (black {b:?} white {w:?})", a.op));
                        }
                        last = *y;
                        let want = (((*x as i64 - b[0]).max(0) as f64 / range).min(1.0) * 65535.0).round();
                        if (*y as f64 - want).abs() > 2.0 {
                            return viol(o, "render:levels", format!("op {}: sample {x} maps to {y}, expected {want} (black {b:?} white {w:?})", a.op));
                        }
                    }
                }
            }
            _ => {
                if ip.len() != im.w as usize * im.h as usize * 3 {
                    return viol(o, "render:triples", format!("op {}: {} is not {}x{} triples", a.op, ip.len(), im.w, im.h));
                }
                if im.w > raw.w || im.h > raw.h || im.w + 2 < raw.w || im.h + 2 < raw.h {
                    return viol(o, "render:dimensions", format!("op {}: {}x{} rendered from {}x{}", a.op, im.w, im.h, raw.w, raw.h));
                }
                if let Some(bad) = render_differs(raw, &rp, im, &ip, *st > 2) {
                    return viol(o, if *st > 2 { "render:colour" } else { "render:demosaic" }, format!("op {}: {bad}", a.op));
                }
                o.count(if *st > 2 { "colour corrected pixels against the reference" } else { "demosaiced pixels against the reference" }, 1);
            }
        }
    }
}

/// The matrix from the camera's colours to linear sRGB: the inverse of the one calibrated for D65.
/// Ok(None) if the image has none; Err if which one, or its inverse, isn't settled.
fn cam_rgb(raw: &RawOb) -> Result<Option<[[f64; 3]; 3]>, ()> {
    let d65: Vec<Vec<f64>> = ["matrix1", "matrix2"]
        .iter()
        .filter_map(|k| raw.attrs.get(*k)?.strip_prefix("D65 [")?.strip_suffix(']'))
        .map(|v| v.split(", ").filter_map(|x| x.parse().ok()).collect())
        .collect();
    let m = match d65.len() {
        0 => return Ok(None),
        1 if d65[0].len() == 9 => &d65[0],
        _ => return Err(()),
    };
    let c = |i: usize, j: usize| m[((i + 1) % 3) * 3 + (j + 1) % 3] * m[((i + 2) % 3) * 3 + (j + 2) % 3] - m[((i + 1) % 3) * 3 + (j + 2) % 3] * m[((i + 2) % 3) * 3 + (j + 1) % 3];
    let det: f64 = (0..3).map(|j| m[j] * c(0, j)).sum();
    if !(det.abs() > 1e-3) {
        return Err(());
    }
    let xyz = [[3.2406, -1.5372, -0.4986], [-0.9689, 1.8758, 0.0415], [0.0557, -0.2040, 1.0570]];
    let mut out = [[0f64; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            // the inverse's element (k, j) is the cofactor (j, k)
            out[i][j] = (0..3).map(|k| xyz[i][k] * c(j, k) / det).sum();
        }
    }
    Ok(Some(out))
}

/// The colour at every pixel: the value measured there in the channel of its place in the pattern,
/// the (bi)median of the neighbours that measured the others; for the colour stage the triple goes
/// through the matrix and the transfer function.
fn render_differs(raw: &RawOb, rp: &[u16], im: &RawOb, ip: &[u16], colour: bool) -> Option<String> {
    let (b, w) = (levels(&raw.attrs["blacks"]), levels(&raw.attrs["whites"]));
    if raw.attrs.get("lin").map(|x| x != "None").unwrap_or(false) || w[0] <= b[0] || b.iter().any(|v| *v != b[0]) || w.iter().any(|v| *v != w[0]) {
        return None;
    }
    let range = (w[0] - b[0]) as f64;
    let lin = |x: i64, y: i64| (rp[y as usize * raw.w as usize + x as usize] as i64 - b[0]).max(0) as f64 / range;
    let out = |v: f64| (v.clamp(0.0, 1.0) * 65535.0).round();
    let grey = raw.attrs["photometric"] == "LinearRaw";
    let pat = raw.attrs["mosaic"].as_bytes();
    if grey {
        if (im.w, im.h) != (raw.w, raw.h) {
            return None;
        }
        for i in 0..rp.len() {
            let v = lin((i % raw.w as usize) as i64, (i / raw.w as usize) as i64);
            let want = out(if colour { v.powf(1.0 / 2.2) } else { v });
            if (0..3).any(|c| (ip[i * 3 + c] as f64 - want).abs() > 2.0) {
                return Some(format!("pixel {i} is {:?}, expected {want} in each channel", &ip[i * 3..i * 3 + 3]));
            }
        }
        return None;
    }
    if pat.len() != 4 || pat.iter().any(|c| !b"RGB".contains(c)) || (im.w + 2, im.h + 2) != (raw.w, raw.h) {
        return None;
    }
    let cam = if colour { cam_rgb(raw).ok()? } else { None };
    let chan = |x: i64, y: i64| pat[((y & 1) * 2 + (x & 1)) as usize];
    for y in 1..raw.h as i64 - 1 {
        for x in 1..raw.w as i64 - 1 {
            let mut want = [0f64; 3];
            for (c, name) in b"RGB".iter().enumerate() {
                want[c] = if chan(x, y) == *name {
                    lin(x, y)
                } else {
                    let mut v: Vec<f64> = vec![];
                    for dy in -1..=1 {
                        for dx in -1..=1 {
                            if chan(x + dx, y + dy) == *name {
                                v.push(lin(x + dx, y + dy));
                            }
                        }
                    }
                    v.sort_by(|a, b| a.total_cmp(b));
                    let m = v.len() / 2;
                    (v[m - 1] + v[m]) / 2.0
                };
            }
            if let Some(m) = &cam {
                let t = want;
                for i in 0..3 {
                    want[i] = (0..3).map(|j| m[i][j] * t[j]).sum();
                }
            }
            if colour {
                for v in want.iter_mut() {
                    *v = if *v <= 0.0031308 { *v * 12.92 } else { 1.055 * v.powf(1.0 / 2.4) - 0.055 };
                }
            }
            for (c, name) in b"RGB".iter().enumerate() {
                let got = ip[(((y - 1) * im.w as i64 + x - 1) * 3) as usize + c];
                if (got as f64 - out(want[c])).abs() > 2.0 {
                    return Some(format!("{} at {x},{y} of a {} image is {got}, expected {}", *name as char, raw.attrs["mosaic"], out(want[c])));
                }
            }
        }
    }
    None
}

// ------------------------------------------------------------------ C21

fn gen_c21(s: &mut Scen, r: &mut Rng) {
    let n = *r.pick(&[1usize, 1, 2, 2, 3, 4]);
    s.set("tool", r.pick(&[0i64, 0, 0, 0, 1, 2, 3, 4, 5]).to_owned());
    let n = if s.get("tool") == 5 { 1 } else { n };
    for _ in 0..n {
        s.files.push(a_file(r));
    }
    s.set("bad", -1);
    if r.chance(1, 2) {
        let v = r.us(n);
        s.set("bad", v as i64);
        let f = syn(&s.files[v]);
        match r.us(6) {
            0 => s.files[v].bytes = Some(if r.chance(1, 2) { vec![] } else { let k = r.range(1, 300) as usize; r.bytes(k) }),
            1 => s.set("missing", 1),
            2 => error_faults(r, s, v, &f, f.bytes.len()),
            3 => s.faults.push(FaultSpec { file: v, kind: "open_err".into(), a: 0, b: 9, c: libc::EACCES as u64 }),
            _ => {
                let k = r.range(1, 3) as usize;
                s.files[v].muts = damage(r, &f, k);
            }
        }
    }
    s.set("thumbs", r.chance(2, 3) as i64);
    s.set("raw", r.chance(1, 2) as i64);
    s.set("skip", r.chance(1, 4) as i64);
    s.set("dev", r.chance(1, 4) as i64);
    s.set("probe", r.chance(1, 4) as i64);
    // the outputs
    s.set("max", *r.pick(&[0i64, 1, 7, 64, 1000, 4096]));
    s.set("eintr", *r.pick(&[0i64, 0, 2, 5]));
    s.set("wseed", (r.u64() >> 1) as i64);
    s.set("full", if r.chance(1, 4) { r.range(0, 4000) as i64 } else { -1 });
    s.set("create", if r.chance(1, 4) { r.below(4) as i64 } else { -1 });
    s.set("errno", *r.pick(&[libc::ENOSPC, libc::EIO, libc::EACCES, libc::EROFS, libc::EDQUOT]) as i64);
    s.ops.push(Op::Faults(0, 100));
}

/// What a tool must say about a file, in this order, and the files it must write.
#[derive(Default)]
struct Report {
    lines: Vec<String>,
    thumbs: Vec<(String, Vec<u8>)>,
    raw: Option<(String, Vec<u8>)>,
    bytes: Vec<u8>,
}

fn report(f: &Loaded, tool: i64, skip: bool) -> Result<Report, String> {
    let mut p = Report::default();
    #[allow(unused_mut)]
    let mut h = match open(f, How::Path, 0) {
        Ok(h) => h,
        Err(Ob::Panic(e)) => return Err(e),
        Err(_) => {
            if let (3, Err(e)) = (tool, libopenraw::rawfile_from_file(format!("/simfs/{}", f.name), None)) {
                p.bytes = format!("Error opening file /simfs/{}: {e}\n", f.name).into_bytes();
            }
            return Ok(p);
        }
    };
    let stem = f.name.rsplit_once('.').map(|x| x.0).unwrap_or(&f.name).to_string();
    let r = guard(|| {
        use libopenraw::{Bitmap, DataType};
        match tool {
            1 => h.dump_file(&mut p.bytes),
            3 => {
                p.bytes = match h.type_id() {
                    Ok(id) => format!("/simfs/{} {id}\n", f.name),
                    Err(e) => format!("Error getting type id /simfs/{}: {e}\n", f.name),
                }
                .into_bytes()
            }
            4 => {
                std::rc::Rc::get_mut(&mut h).unwrap().set_probe(true);
                for z in h.thumbnail_sizes().unwrap_or_default() {
                    let _ = h.thumbnail(*z);
                }
                let _ = h.raw_data(false);
                let _ = h.exif_ifd();
                let _ = h.maker_note_ifd();
                p.bytes = format!("Probe:\n{}\n", h.probe().unwrap().print_str()).into_bytes();
            }
            5 => {
                if let Some(d) = h.raw_data(true).ok().as_ref().and_then(|d| d.data8()) {
                    p.raw = Some(("rawdata.raw".into(), d.to_vec()));
                }
            }
            2 => {
                for (k, v, t) in h.metadata().into_iter().flatten() {
                    let t: &'static str = libopenraw::tiff::exif::TagType::try_from(t).unwrap_or(libopenraw::tiff::exif::TagType::Error_).into();
                    p.bytes.extend_from_slice(format!("{k} ({t}) => {:?}\n", v.into_string(false)).as_bytes());
                }
            }
            _ => {
                p.lines.push(format!("Raw type: {:?}", h.type_()));
                p.lines.push(format!("MIME type: {}", h.mime_type()));
                let Ok(id) = h.type_id() else {
                    p.lines.push("Couldn't guess file type ID".into());
                    return;
                };
                p.lines.push(format!("Vendor id: {}", u32::from(id) >> 16));
                for (k, n) in [("Make", "Make"), ("Model", "Model"), ("UniqueCameraModel", "Unique Camera Model")] {
                    if let Some(v) = h.metadata_value(&format!("Exif.Image.{k}")).as_ref().and_then(|v| v.string()) {
                        p.lines.push(format!("{n}: {v:?}"));
                    }
                }
                if let Some(sizes) = h.thumbnail_sizes() {
                    p.lines.push(format!("Thumbnail sizes: {sizes:?}"));
                    for z in sizes {
                        let Ok(t) = h.thumbnail(*z) else { continue };
                        p.lines.push(format!("\tThumbnail size: {} x {}", t.width(), t.height()));
                        p.lines.push(format!("\tFormat: {:?}", t.data_type()));
                        p.lines.push(format!("\tSize: {} bytes", t.data8().map(|d| d.len()).unwrap_or(0)));
                        if let (DataType::Jpeg, Some(d)) = (t.data_type(), t.data8()) {
                            p.thumbs.push((format!("{stem}_{}x{}.jpg", t.width(), t.height()), d.to_vec()));
                        }
                    }
                }
                match h.raw_data(skip) {
                    Ok(d) => {
                        p.lines.push(format!("\tFormat: {:?}", d.data_type()));
                        p.lines.push(format!("\tSize: {}x{}", d.width(), d.height()));
                        p.lines.push(format!("\tActive area: {:?}", d.active_area()));
                        p.lines.push(format!("\tBpc: {}", d.bpc()));
                        p.lines.push(format!("\tWhites = {:?}", d.whites()));
                        p.lines.push(format!("\tBlacks = {:?}", d.blacks()));
                        if let Some(px) = d.data16() {
                            let white = (1u32 << d.bpc().min(16)) - 1;
                            let mut b = format!("P5\n{} {}\n{white}\n", d.width(), d.height()).into_bytes();
                            for v in px {
                                b.extend_from_slice(&(*v as u32).min(white).to_be_bytes()[2..]);
                            }
                            p.raw = Some((format!("{stem}_RAW.pgm"), b));
                        }
                    }
                    Err(_) => p.lines.push("Raw data not found".into()),
                }
                p.lines.push(format!("Has Exif: {}", h.exif_ifd().is_some()));
                if let Some(d) = h.maker_note_ifd() {
                    p.lines.push(format!("Number of MakerNote entries {}", libopenraw::Ifd::num_entries(d)));
                }
                p.lines.push(format!("Orientation: {}", h.orientation()));
            }
        }
    });
    close(h);
    r.map(|_| p)
}

fn run_c21(s: &Scen, files: &[Loaded], o: &mut Out) {
    let (tool, bad) = (s.get("tool"), s.get("bad"));
    let skip = s.get("skip") != 0;
    let on = |k: &str| tool == 0 && s.get(k) != 0;
    let mut want = vec![];
    for (i, f) in files.iter().enumerate() {
        if i as i64 == bad && (s.get("missing") != 0 || !s.faults.is_empty()) {
            want.push(None);
            continue;
        }
        match report(f, tool, skip && tool == 0) {
            Ok(p) => want.push(Some(p)),
            // judged by other properties
            Err(_) => return,
        }
    }
    disk::clear_faults();
    s.set_faults(files, 0, 100);
    let mut args: Vec<String> = vec![];
    for (k, a) in [("thumbs", "-t"), ("raw", "-R"), ("skip", "-n"), ("dev", "-D"), ("probe", "-p")] {
        if on(k) {
            args.push(a.into());
        }
    }
    for (i, f) in files.iter().enumerate() {
        args.push(format!("/simfs/{}", if i as i64 == bad && s.get("missing") != 0 { format!("none{i}.dng") } else { f.name.clone() }));
    }
    let lim = |k: &str| if s.get(k) >= 0 { Some((s.get(k) as u64, s.get("errno"))) } else { None };
    simrt::out::start(simrt::out::Plan { max: s.get("max") as usize, eintr: s.get("eintr") as u64, seed: s.get("wseed") as u64, full: lim("full"), create: lim("create") });
    clock::set_budget(20 * step_budget(files));
    crate::worker::set_op_str("tool");
    let name = ["ordiag", "ordump", "metadata", "identify", "probe", "rawdata"][tool as usize];
    let r = crate::tool::run(name, &args);
    crate::worker::end_op();
    clock::clear_budget();
    let out = simrt::out::stop();
    note_counts(o);
    o.count("fault:output fails", out.fails);
    o.count("fault:short write", out.shorts);
    o.count("fault:interrupted write", out.eintrs);
    o.count(name, 1);
    o.nontrivial = out.fails + out.shorts + out.eintrs > 0 || bad >= 0;
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let told = String::from_utf8_lossy(&out.stderr).into_owned();
    // durations differ
    let lines: Vec<&str> = text.split('\n').filter(|l| !l.starts_with("Elapsed")).collect();
    o.digest = hash(lines.join("\n").as_bytes()) ^ out.files.iter().fold(1, |h, f| simrt::rng::mix(h ^ hash(&f.1)));
    o.sig = o.digest;
    if let Err(p) = r {
        return viol(o, format!("tool:panic {}", crate::worker::stable(p.split(" at ").last().unwrap_or(""))), format!("{name} {args:?} panicked: {p}; its output: {}", brief(&told)));
    }
    if (1..5).contains(&tool) {
        // what every file but the bad one has, one after the other
        let at = want.iter().position(|p| p.is_none());
        let join = |w: &[Option<Report>]| w.iter().flatten().flat_map(|p| p.bytes.clone()).collect::<Vec<u8>>();
        let (first, rest) = (join(&want[..at.unwrap_or(want.len())]), join(&want[at.unwrap_or(want.len())..]));
        let got = &out.stdout[..];
        if !got.starts_with(&first) || !got[first.len()..].ends_with(&rest) {
            return viol(o, "tool:output", format!("{name} {args:?}: its output ({} bytes) isn't what the library gives ({} and {} bytes)", got.len(), first.len(), rest.len()));
        }
        if at.is_none() && got.len() > first.len() {
            viol(o, "tool:extra", format!("{name} {args:?}: {} bytes more than the library gives", got.len() - first.len()));
        }
        return;
    }
    let mut at = 0;
    for (i, p) in want.iter().enumerate() {
        let Some(p) = p else { continue };
        for l in &p.lines {
            for l in l.split('\n') {
                match lines[at..].iter().position(|x| *x == l) {
                    Some(k) => at += k + 1,
                    None => return viol(o, "tool:report", format!("{name} {args:?}: no {l:?} for file {i} after {:?}", lines.get(at.max(1) - 1))),
                }
            }
        }
    }
    // a name can be written again, by another file or for another thumbnail: the last one stays,
    // and what was written before a failure isn't there anymore
    let failed = |n: &str| {
        let l: Vec<&str> = told.lines().collect();
        let at = l.iter().rposition(|l| l.starts_with("Written") && l.contains(n)).map_or(0, |k| k + 1);
        out.fails > 0 && l[at..].iter().any(|l| !l.starts_with("Written"))
    };
    let mut exp: std::collections::BTreeMap<&str, &[u8]> = Default::default();
    for p in want.iter().flatten() {
        if on("thumbs") {
            exp.extend(p.thumbs.iter().map(|t| (&t.0[..], &t.1[..])));
        }
        if on("raw") || tool == 5 {
            exp.extend(p.raw.iter().map(|t| (&t.0[..], &t.1[..])));
        }
    }
    for (n, d) in exp {
        match out.files.iter().rev().find(|f| f.0 == n) {
            Some(f) if f.1 == d => {}
            _ if failed(n) => {}
            Some(f) => return viol(o, "tool:file", format!("{name} {args:?}: {n} has {} bytes, the library gives {}, nothing reported: {}", f.1.len(), d.len(), brief(&told))),
            None => return viol(o, "tool:missing", format!("{name} {args:?}: {n} isn't written, nothing reported: {}", brief(&told))),
        }
        o.count("extracted files", 1);
    }
}

fn brief(s: &str) -> String {
    s.chars().take(300).collect()
}

/// How cases are made and what makes one nontrivial, for the evidence.
pub fn rule(prop: &str) -> String {
    let what = match prop {
        "C01" => "the same queries on a generated file without faults and under seeded short and interrupted reads; nontrivial when such a read struck",
        "C02" => "a history of queries under seeded open, read and seek errors and unreadable ranges; nontrivial when a fault struck",
        "C03" => "a history of queries on a generated file cut at a seeded place; nontrivial when the cut is inside the file",
        "C04" => "a history of queries on a file with seeded damage aimed at its structure; nontrivial when the damage changed a byte",
        "C05" => "each query first on a fresh handle, then all in a seeded order on one handle; nontrivial when a query had predecessors",
        "C06" => "the same queries on the same bytes opened in every way, and through the C interface",
        "C07" => "parallel decoding under seeded schedules and widths against the sequential one and the pixels encoded; nontrivial when tasks interleaved",
        "C08" => "two to four simulated threads with their own files under a seeded scheduler against each running alone; nontrivial when threads interleaved",
        "C09" => "seeded histories of C calls over objects of several files with releases in any order, contents re-read after every step",
        "C10" => "seeded histories of C calls with null, absent, small and damaged arguments and faults against the documented codes",
        "C11" => "seeded histories under faults, then the file again without faults against a process that never saw one; nontrivial when a fault struck",
        "C12" => "the same history in two processes with different memory contents, hash seeds, clocks, environment, directory and log level",
        "C13" => "a generated file under seeded names, extensions, truncations, unknown contents and faults; nontrivial when the type had to be found",
        "C14" | "C15" | "C16" => "queries on a generated file against what the generator stored in it",
        "C17" => "a seeded history with faults repeated four times; descriptors and live allocations after each",
        "C18" => "dumps to seeded writers that write short, are interrupted or fail at any point, with and without input faults",
        "C19" => "queries on generated and damaged files under an accounting allocator with a limit from the file and the delivered images",
        "C21" => "the command line tools' main over one to four files, one of them possibly damaged, unreadable or missing, writing to seeded outputs, against the library's answers; nontrivial when a fault struck or a file was bad",
        _ => "rendered images of every stage against the raw image",
    };
    format!("one seed makes one scenario: {what}; distinct by the set of library edges executed and the answers given")
}
