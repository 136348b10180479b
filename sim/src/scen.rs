//! A scenario: everything that determines one simulated run.
use crate::obs::{How, Q};
use crate::synth::{self, tb::MK, SynFile};
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mut {
    Trunc(usize),
    Set(usize, Vec<u8>),
    Copy(usize, usize, usize),
    Append(Vec<u8>),
    /// the content of another file
    Other(String, u64),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FileSpec {
    pub fmt: String,
    pub seed: u64,
    pub muts: Vec<Mut>,
    /// name in the simulated file system; empty: f<i>.<ext>
    pub name: String,
    /// literal bytes instead of a generated file
    pub bytes: Option<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FaultSpec {
    pub file: usize,
    pub kind: String,
    pub a: u64,
    pub b: u64,
    pub c: u64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// handle, file, how, hint
    Open(usize, usize, How, u32),
    Q(usize, Q),
    Close(usize),
    /// from here on the faults numbered a..b apply
    Faults(usize, usize),
    Heal,
    /// C interface call: name, object slots, numbers
    C(String, Vec<usize>, Vec<i64>),
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Scen {
    pub prop: String,
    pub seed: u64,
    pub files: Vec<FileSpec>,
    pub ops: Vec<Op>,
    pub faults: Vec<FaultSpec>,
    pub width: usize,
    pub tape: Option<Vec<u32>>,
    pub tape_seed: u64,
    pub qmax: u32,
    pub poison: u64,
    pub hash_seed: u64,
    pub log: u8,
    pub x: BTreeMap<String, i64>,
}

pub struct Loaded {
    pub name: String,
    pub syn: Option<SynFile>,
    pub bytes: Vec<u8>,
    pub orig: Vec<u8>,
    pub damaged: bool,
}

pub fn apply(b: &mut Vec<u8>, muts: &[Mut]) {
    for m in muts {
        match m {
            Mut::Trunc(n) => b.truncate(*n),
            Mut::Set(at, v) => {
                for (i, x) in v.iter().enumerate() {
                    if at + i < b.len() {
                        b[at + i] = *x;
                    }
                }
            }
            Mut::Copy(from, to, n) => {
                for i in 0..*n {
                    if from + i < b.len() && to + i < b.len() {
                        b[to + i] = b[from + i];
                    }
                }
            }
            Mut::Append(v) => b.extend_from_slice(v),
            Mut::Other(f, s) => *b = synth::gen(f, *s).bytes,
        }
    }
}

impl FileSpec {
    pub fn new(fmt: &str, seed: u64) -> FileSpec {
        FileSpec { fmt: fmt.to_string(), seed, muts: vec![], name: String::new(), bytes: None }
    }
    pub fn load(&self, i: usize) -> Loaded {
        let (orig, syn) = if let Some(b) = &self.bytes { (b.clone(), None) } else { let f = synth::gen(&self.fmt, self.seed); (f.bytes.clone(), Some(f)) };
        let mut bytes = orig.clone();
        apply(&mut bytes, &self.muts);
        let ext = syn.as_ref().map(|s| s.ext).unwrap_or("bin");
        let name = if self.name.is_empty() { format!("f{i}.{ext}") } else { self.name.clone() };
        Loaded { name, damaged: bytes != orig, syn, bytes, orig }
    }
}

pub fn fault_kind(s: &str) -> simrt::disk::Kind {
    use simrt::disk::Kind::*;
    match s {
        "short_max" => ShortMax,
        "short_rand" => ShortRand,
        "eintr" => Eintr,
        "eintr_rand" => EintrRand,
        "read_err" => ReadErr,
        "bad_range" => BadRange,
        "seek_err" => SeekErr,
        "open_err" => OpenErr,
        _ => Shrink,
    }
}

impl Scen {
    pub fn load(&self) -> Vec<Loaded> {
        self.files.iter().enumerate().map(|(i, f)| f.load(i)).collect()
    }
    /// Set up the simulated world.
    pub fn enter(&self, files: &[Loaded]) {
        simrt::alloc::set_poison(self.poison);
        simrt::sched::set_hash_seed(self.hash_seed);
        log::set_max_level(level(self.log));
        for f in files {
            simrt::disk::put(&f.name, f.bytes.clone());
        }
    }
    pub fn set_faults(&self, files: &[Loaded], from: usize, to: usize) {
        for (i, f) in files.iter().enumerate() {
            let v: Vec<simrt::disk::Fault> =
                self.faults.iter().enumerate().filter(|(k, x)| x.file == i && *k >= from && *k < to).map(|(_, x)| simrt::disk::Fault { kind: fault_kind(&x.kind), a: x.a, b: x.b, c: x.c }).collect();
            simrt::disk::set_faults(&f.name, &v);
        }
    }
    pub fn get(&self, k: &str) -> i64 {
        self.x.get(k).copied().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.x.insert(k.to_string(), v);
    }
}

pub fn level(n: u8) -> log::LevelFilter {
    match n {
        0 => log::LevelFilter::Off,
        1 => log::LevelFilter::Error,
        2 => log::LevelFilter::Warn,
        3 => log::LevelFilter::Info,
        4 => log::LevelFilter::Debug,
        _ => log::LevelFilter::Trace,
    }
}

pub struct NullLog;
impl log::Log for NullLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // format the message as a real logger would, and drop it
        struct Sink;
        impl std::fmt::Write for Sink {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = std::fmt::write(&mut Sink, *r.args());
    }
    fn flush(&self) {}
}

// ------------------------------------------------------------------ random parts

const MAGIC: &[u64] = &[0, 1, 2, 3, 4, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];

fn enc(v: u64, n: usize, be: bool) -> Vec<u8> {
    let mut b = v.to_le_bytes()[..n.min(8)].to_vec();
    if be {
        b.reverse();
    }
    b
}
fn dec(b: &[u8], be: bool) -> u64 {
    let mut x = [0u8; 8];
    let n = b.len().min(8);
    x[..n].copy_from_slice(&b[..n]);
    if be {
        x[..n].reverse();
    }
    u64::from_le_bytes(x)
}

/// Damage aimed at the structure of the file.
pub fn damage(rng: &mut Rng, f: &SynFile, n: usize) -> Vec<Mut> {
    let mut out = vec![];
    let len = f.bytes.len().max(1);
    for _ in 0..n {
        let m = if f.marks.is_empty() || rng.chance(1, 6) { None } else { Some(*rng.pick(&f.marks)) };
        match m {
            None => match rng.us(5) {
                0 => out.push(Mut::Set(rng.us(len), vec![rng.u8()])),
                1 => {
                    let k = rng.range(1, 16) as usize;
                    out.push(Mut::Set(rng.us(len), rng.bytes(k)))
                }
                2 => out.push(Mut::Set(rng.us(len), vec![*rng.pick(&[0u8, 0xff]); rng.range(1, 64) as usize])),
                3 => out.push(Mut::Copy(rng.us(len), rng.us(len), rng.range(1, 64) as usize)),
                _ => out.push(Mut::Trunc(rng.us(len))),
            },
            Some(m) => {
                let n = m.len.max(1);
                if n > 8 || m.kind == MK::Stream || m.kind == MK::Head || m.kind == MK::Text {
                    // mostly the front of a stream, where its headers are
                    let span = if rng.chance(2, 3) { n.min(64) } else { n };
                    let at = m.off + rng.us(span);
                    let k = *rng.pick(&[1usize, 1, 2, 2, 4]);
                    let v = match rng.us(4) {
                        0 => vec![0; k],
                        1 => vec![0xff; k],
                        2 => vec![f.bytes[at.min(len - 1)] ^ (1 << rng.us(8))],
                        _ => rng.bytes(k),
                    };
                    out.push(Mut::Set(at, v));
                    continue;
                }
                let cur = dec(&f.bytes[m.off..(m.off + n).min(len)], m.be);
                let v = match m.kind {
                    MK::Ptr => match rng.us(7) {
                        0 => *rng.pick(MAGIC),
                        1 => rng.below(len as u64 + 16),
                        2 => (len as u64).wrapping_sub(rng.below(20)),
                        3 => {
                            // another pointer's target
                            let ps: Vec<_> = f.marks.iter().filter(|x| x.kind == MK::Ptr).collect();
                            let o = *rng.pick(&ps);
                            dec(&f.bytes[o.off..o.off + o.len], o.be)
                        }
                        4 => m.off as u64,
                        5 => cur.wrapping_add(rng.range(1, 12)).wrapping_sub(6),
                        _ => (u32::MAX as u64) - rng.below(64),
                    },
                    MK::Type => *rng.pick(&[0u64, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 255, 10000, 0xffff]),
                    MK::Tag => {
                        if rng.chance(1, 2) {
                            crate::obs::TAGS[rng.us(crate::obs::TAGS.len())] as u64
                        } else {
                            // exchange with another tag of the file
                            let ps: Vec<_> = f.marks.iter().filter(|x| x.kind == MK::Tag && x.len == m.len).collect();
                            let o = *rng.pick(&ps);
                            dec(&f.bytes[o.off..o.off + o.len], o.be)
                        }
                    }
                    _ => match rng.us(5) {
                        0 | 1 => *rng.pick(MAGIC),
                        2 => cur.wrapping_add(rng.range(1, 8)).wrapping_sub(4),
                        3 => cur ^ (1 << rng.us(8 * n.min(8))),
                        _ => rng.u64() >> rng.us(64),
                    },
                };
                out.push(Mut::Set(m.off, enc(v, n, m.be)));
            }
        }
    }
    out
}

/// A place to cut the file.
pub fn cut(rng: &mut Rng, f: &SynFile) -> usize {
    let len = f.bytes.len();
    match rng.us(4) {
        0 if !f.marks.is_empty() => {
            let m = rng.pick(&f.marks);
            (m.off + rng.us(m.len.min(16) + 1)).min(len.saturating_sub(1))
        }
        1 => len.saturating_sub(1 + rng.us(64)),
        2 if !f.marks.is_empty() => {
            let ps: Vec<_> = f.marks.iter().filter(|x| x.kind == MK::Ptr).collect();
            if ps.is_empty() {
                rng.us(len)
            } else {
                let o = *rng.pick(&ps);
                let t = dec(&f.bytes[o.off..o.off + o.len], o.be) as usize;
                (t + rng.us(20)).min(len.saturating_sub(1))
            }
        }
        _ => rng.us(len.max(1)),
    }
}

pub fn base(prop: &str, seed: u64, rng: &mut Rng) -> Scen {
    Scen {
        prop: prop.into(),
        seed,
        width: 1,
        tape_seed: rng.u64(),
        qmax: 50,
        poison: if rng.chance(1, 4) { *rng.pick(&[0u64, u64::MAX]) } else { rng.u64() },
        hash_seed: rng.u64(),
        log: if rng.chance(1, 5) { 5 } else { 0 },
        ..Default::default()
    }
}
