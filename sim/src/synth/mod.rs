//! Synthetic raw files: seeded, structurally complete files with the answers they must give.
pub mod arw;
pub mod dng;
pub mod enc;
pub mod erf;
pub mod jpeg;
pub mod mats;
pub mod models;
pub mod mrw;
pub mod mnames;
pub mod names;
pub mod nef;
pub mod orf;
pub mod pef;
pub mod raf;
pub mod rafz;
pub mod rw2;
pub mod cr2;
pub mod cr3;
pub mod crw;
pub mod crwtab;
pub mod tb;
pub mod tiffs;

use simrt::rng::Rng;
use std::collections::BTreeMap;
use tb::*;

#[derive(Clone, Debug, PartialEq)]
pub struct ExpThumb {
    pub dim: u32,
    pub w: u32,
    pub h: u32,
    pub fmt: &'static str,
    pub data: Vec<u8>,
}

/// The stored raw image.
#[derive(Clone, Debug, Default)]
pub struct ExpRaw {
    /// Undecompressed: data type, kind (1 bytes, 2 samples, 3 tiles) and bytes
    pub stored: Option<(String, u8, Vec<u8>)>,
    pub stored_dim: Option<(u32, u32)>,
    /// Decompressed
    pub w: u32,
    pub h: u32,
    pub bpc: u16,
    pub pixels: Option<Vec<u16>>,
    pub dtype: String,
    /// attributes by name, as in `RawOb::attrs`; of the decompressed image
    pub attrs: BTreeMap<&'static str, Vec<String>>,
    /// the same decompression runs in parallel tasks
    pub parallel: bool,
    /// bytes occupied in the file by sample rows that are read one by one
    pub uncompressed: bool,
}

impl ExpRaw {
    pub fn attr(&mut self, k: &'static str, v: impl Into<String>) {
        self.attrs.insert(k, vec![v.into()]);
    }
}

/// What the file must answer. `None`: not settled by the harness.
#[derive(Clone, Debug, Default)]
pub struct Expect {
    pub type_: &'static str,
    pub type_num: u32,
    pub mime: &'static str,
    /// identified by content alone
    pub content: bool,
    pub type_id: Option<u32>,
    pub thumbs: Option<Vec<ExpThumb>>,
    /// stored previews that are not listed as long as the listed ones are readable
    pub hidden: Vec<ExpThumb>,
    pub raw: Option<ExpRaw>,
    /// the whole enumeration, in order
    pub meta_all: Option<Vec<(String, String, i16)>>,
    /// lookups in the main directory
    pub meta: Vec<(String, String)>,
    pub absent: Vec<String>,
    pub orient: Option<u32>,
    /// entries of directory 0 main, 1 exif, 2 maker note
    pub dirs: Vec<(u8, Vec<(u16, V)>)>,
    /// no directory with that number
    pub no_dirs: Vec<u8>,
    /// Names of the tags of directories, where they are settled.
    pub names: Vec<(u8, mnames::Names)>,
    /// the directories a dump lists
    pub dumped: Vec<tb::Dumped>,
}

#[derive(Clone)]
pub struct SynFile {
    pub fmt: &'static str,
    pub ext: &'static str,
    pub bytes: Vec<u8>,
    pub marks: Vec<Mark>,
    pub exp: Expect,
    pub tags: Vec<String>,
}

pub const FORMATS: &[&str] = &["dng", "gpr", "pef", "arw", "mrw", "erf", "orf", "nef", "rw2", "cr2", "crw", "jpeg", "raf", "cr3"];

pub fn gen(fmt: &str, seed: u64) -> SynFile {
    let rng = Rng::new(simrt::rng::mix(seed) ^ 0x51_7e);
    match fmt {
        "dng" => dng::gen(rng, "dng"),
        "gpr" => dng::gen(rng, "gpr"),
        "pef" => pef::gen(rng),
        "rw2" => rw2::gen(rng),
        "raf" => raf::gen(rng),
        "cr2" => cr2::gen(rng),
        "cr3" => cr3::gen(rng),
        "crw" => crw::gen(rng),
        "jpeg" => jpeg::gen(rng),
        "arw" => arw::gen(rng),
        "nef" => nef::gen(rng),
        "orf" => orf::gen(rng),
        "erf" => erf::gen(rng),
        "mrw" => mrw::gen(rng),
        _ => panic!("no format {fmt}"),
    }
}

// ---------------------------------------------------------------- shared parts

/// A file under construction.
pub struct Cx {
    pub fb: Fb,
    pub rng: Rng,
    pub e: Expect,
    pub tags: Vec<String>,
    pub be: bool,
}

impl Cx {
    pub fn new(rng: Rng, be: bool) -> Cx {
        Cx { fb: Fb::new(be, rng.fork(77)), rng, e: Expect::default(), tags: vec![], be }
    }
    pub fn tag(&mut self, s: &str) {
        self.tags.push(s.to_string());
    }
    pub fn finish(mut self, fmt: &'static str, ext: &'static str, b: Built) -> SynFile {
        self.e.dumped = b.dirs;
        SynFile { fmt, ext, bytes: b.bytes, marks: b.marks, exp: self.e, tags: self.tags }
    }
}

pub fn tiff_head(be: bool) -> Vec<u8> {
    if be {
        b"MM\0\x2a\0\0\0\0".to_vec()
    } else {
        b"II\x2a\0\0\0\0\0".to_vec()
    }
}

pub fn ascii(rng: &mut Rng, max: usize) -> String {
    let n = rng.us(max + 1);
    (0..n).map(|_| rng.range(0x20, 0x7e) as u8 as char).collect()
}

/// A value of any type with any content.
pub fn any_value(rng: &mut Rng) -> V {
    let n = *rng.pick(&[0usize, 1, 1, 1, 2, 2, 3, 4, 5, 9, 25, 40]);
    let r = rng;
    match r.us(14) {
        0 => V::B(r.bytes(n)),
        1 => {
            let mut b = ascii(r, 40).into_bytes();
            b.push(0);
            V::A(b)
        }
        2 => {
            // no terminator, or text after it, or not UTF-8
            let mut b = r.bytes(n);
            if r.chance(1, 2) {
                b.iter_mut().for_each(|x| *x &= 0x7f);
            }
            V::A(b)
        }
        3 => V::S((0..n).map(|_| r.u16()).collect()),
        4 => V::L((0..n).map(|_| r.u32()).collect()),
        5 => V::R((0..n).map(|_| (r.u32(), r.u32())).collect()),
        6 => V::SB((0..n).map(|_| r.u8() as i8).collect()),
        7 => V::U(r.bytes(n)),
        8 => V::SS((0..n).map(|_| r.u16() as i16).collect()),
        9 => V::SL((0..n).map(|_| r.u32() as i32).collect()),
        10 => V::SR((0..n).map(|_| (r.u32() as i32, r.u32() as i32)).collect()),
        11 => V::F((0..n).map(|_| (r.u32() & 0x7f7f_ffff) as i32 as f32 / 7.0).collect()),
        12 => V::D((0..n).map(|_| (r.u32() as f64) / 7.0).collect()),
        _ => V::S(vec![r.u16()]),
    }
}

/// The value as the metadata interface states it.
pub fn value_text(v: &V, b: Option<&Built>, base: i64) -> String {
    let addr = |c: &Cref| (b.expect("address").at(*c) as i64 - base) as u32;
    match v {
        V::B(v) | V::U(v) => format!("Bytes{v:?}"),
        V::A(v) => {
            let s = v.split(|c| *c == 0).next().unwrap_or(&[]);
            let mut o = String::from_utf8_lossy(s).to_string().into_bytes();
            o.push(0);
            format!("String{:?}", String::from_utf8_lossy(&o))
        }
        V::S(v) => format!("Int{:?}", v.iter().map(|x| *x as u32).collect::<Vec<_>>()),
        V::L(v) => format!("Int{v:?}"),
        V::R(v) => format!("Rational{v:?}"),
        V::SB(v) => format!("SBytes{v:?}"),
        V::SS(v) => format!("SInt{:?}", v.iter().map(|x| *x as i32).collect::<Vec<_>>()),
        V::SL(v) => format!("SInt{v:?}"),
        V::SR(v) => format!("SRational{v:?}"),
        V::F(v) => format!("Float{:?}", v.iter().map(|x| x.to_bits()).collect::<Vec<_>>()),
        V::D(v) => format!("Double{:?}", v.iter().map(|x| x.to_bits()).collect::<Vec<_>>()),
        V::P(v) => format!("Int{:?}", v.iter().map(addr).collect::<Vec<_>>()),
        V::UP(c, n) => {
            let b = b.expect("address");
            let a = b.at(*c);
            format!("Bytes{:?}", &b.bytes[a..a + *n as usize])
        }
        V::BP(c) => format!("Bytes{:?}", addr(c).to_le_bytes()),
        V::P13(_) | V::X(..) => String::new(),
    }
}

/// What the conversions of a metadata value give: count, string, full and short text, integer, fraction.
fn conversions(v: &V, b: &Built, base: i64) -> String {
    let n32: Vec<u32> = match v {
        V::S(v) => v.iter().map(|x| *x as u32).collect(),
        V::L(v) => v.clone(),
        V::P(v) => v.iter().map(|c| (b.at(*c) as i64 - base) as u32).collect(),
        _ => vec![],
    };
    fn txt<T: ToString>(v: &[T]) -> Vec<String> {
        v.iter().map(|x| x.to_string()).collect()
    }
    let items = match v {
        V::A(v) => {
            let s = String::from_utf8_lossy(v.split(|c| *c == 0).next().unwrap_or(&[])).to_string();
            return format!(" {:?}", (1usize, Some(&s), &s, &s, None::<u32>, None::<(u32, u32)>));
        }
        V::B(v) | V::U(v) => txt(v),
        V::UP(c, n) => txt(&b.bytes[b.at(*c)..b.at(*c) + *n as usize]),
        V::BP(c) => txt(&((b.at(*c) as i64 - base) as u32).to_le_bytes()),
        V::S(_) | V::L(_) | V::P(_) => txt(&n32),
        V::R(v) => v.iter().map(|x| format!("{}/{}", x.0, x.1)).collect(),
        V::SR(v) => v.iter().map(|x| format!("{}/{}", x.0, x.1)).collect(),
        V::SB(v) => txt(v),
        V::SS(v) => txt(v),
        V::SL(v) => txt(v),
        V::F(v) => txt(v),
        V::D(v) => txt(v),
        V::P13(_) | V::X(..) => return String::new(),
    };
    let list = |max: usize| match items.len() {
        0 => String::new(),
        1 => items[0].clone(),
        n => format!("[ {}{}]", items.iter().take(max).map(|x| format!("{x}, ")).collect::<String>(), if n > max || n == max && max == 21 { "..." } else { "" }),
    };
    let r = if let V::R(v) = v { v.first().copied() } else { None };
    format!(" {:?}", (items.len(), None::<String>, list(usize::MAX), list(21), n32.first().copied(), r))
}

/// What the accessors of one directory entry answer.
pub fn entry_text(v: &V) -> String {
    let u: Option<Vec<u32>> = match v {
        V::S(v) => Some(v.iter().map(|x| *x as u32).collect()),
        V::L(v) => Some(v.clone()),
        V::R(v) => Some(v.iter().map(|r| if r.1 == 0 { 0 } else { r.0 / r.1 }).collect()),
        _ => None,
    };
    let i: Option<Vec<i32>> = match v {
        V::SS(v) => Some(v.iter().map(|x| *x as i32).collect()),
        V::SL(v) => Some(v.clone()),
        _ => None,
    };
    let f: Option<Vec<f64>> = match v {
        V::S(_) | V::L(_) => u.as_ref().map(|u| u.iter().map(|x| *x as f64).collect()),
        V::R(v) => Some(v.iter().map(|r| if r.1 == 0 { f64::NAN } else { r.0 as f64 / r.1 as f64 }).collect()),
        V::SR(v) => Some(v.iter().map(|r| if r.1 == 0 { f64::NAN } else { r.0 as f64 / r.1 as f64 }).collect()),
        V::F(v) => Some(v.iter().map(|x| *x as f64).collect()),
        V::D(v) => Some(v.clone()),
        _ => None,
    };
    let s = match v {
        V::A(v) => Some(String::from_utf8_lossy(v.split(|c| *c == 0).next().unwrap_or(&[])).to_string()),
        _ => None,
    };
    crate::obs::entry_str(s, u, i, f)
}

pub fn tag_name(t: u16) -> &'static str {
    names::EXIF.binary_search_by_key(&t, |x| x.0).map(|i| names::EXIF[i].1).unwrap_or("")
}

/// Names of a directory in the enumeration.
pub type Namer = fn(u16) -> &'static str;

/// Record the answers for the chain of directories, after the layout is known.
pub fn expect_meta(e: &mut Expect, chain: &[(&'static str, &Ifd, Namer)], b: &Built, base: i64) {
    let mut all = vec![];
    for (i, (ns, d, namer)) in chain.iter().enumerate() {
        let mut ents: Vec<&(u16, V)> = d.e.iter().collect();
        ents.sort_by_key(|x| x.0);
        for (t, v) in ents {
            let key = format!("{ns}.{}", namer(*t));
            let val = value_text(v, Some(b), base);
            if i == 0 && !namer(*t).is_empty() {
                e.meta.push((key.clone(), format!("{val}{}", conversions(v, b, base))));
            }
            all.push((key, val, v.code()));
        }
    }
    e.meta_all = Some(all);
    if let Some((ns, d, namer)) = chain.first() {
        for (t, n) in names::EXIF.iter() {
            if !d.has(*t) && namer(*t) == *n && e.absent.len() < 6 && (*t as usize * 7 + b.bytes.len()) % 23 == 0 {
                e.absent.push(format!("{ns}.{n}"));
            }
        }
        // names are told apart by case
        for (key, _) in e.meta.iter().filter(|m| (m.0.len() * 5 + b.bytes.len()) % 7 == 0).take(2) {
            e.absent.push(if key.len() % 2 == 0 { key.to_lowercase() } else { key.to_uppercase() });
        }
        e.absent.push(format!("{ns}.NoSuchTag"));
        e.orient = Some(match d.e.iter().find(|x| x.0 == 0x112) {
            Some((_, V::S(v))) => v[0] as u32,
            Some((_, V::L(v))) => v[0],
            _ => 0,
        });
        expect_dir(e, 0, d);
    }
}

pub fn expect_dir(e: &mut Expect, n: u8, d: &Ifd) {
    if n == 1 {
        e.names.push((1, names::EXIF));
    }
    e.dirs.push((n, d.e.iter().filter(|x| !matches!(x.1, V::P(_) | V::P13(_) | V::BP(_) | V::UP(..) | V::X(..))).cloned().collect()));
}

/// Descriptive tags that steer nothing.
const PLAIN: &[u16] = &[
    0x10a, 0x10d, 0x10e, 0x11a, 0x11b, 0x11c, 0x11d, 0x128, 0x131, 0x132, 0x13b, 0x13c, 0x13e, 0x13f, 0x211, 0x213, 0x2bc, 0x8298, 0x829a, 0x829d, 0x83bb, 0x8822, 0x8827, 0x9003, 0x9204, 0x9216, 0xc4a5,
];
const PHOTO: &[u16] = &[
    0x829a, 0x829d, 0x8822, 0x8827, 0x9000, 0x9003, 0x9004, 0x9101, 0x9201, 0x9202, 0x9204, 0x9205, 0x9207, 0x9208, 0x9209, 0x920a, 0x9286, 0x9290, 0xa000, 0xa001, 0xa002, 0xa003, 0xa20e, 0xa210, 0xa217,
    0xa300, 0xa301, 0xa401, 0xa402, 0xa403, 0xa406, 0xa430, 0xa431, 0xa434,
];

pub fn plain_tags(rng: &mut Rng, d: &mut Ifd, n: usize) {
    for _ in 0..n {
        let t = *rng.pick(PLAIN);
        if d.has(t) {
            continue;
        }
        let v = match t {
            0x10d | 0x10e | 0x131 | 0x13b | 0x13c | 0x8298 if rng.chance(3, 4) => V::s(&ascii(rng, 40)),
            0x11a | 0x11b | 0x829a | 0x829d if rng.chance(3, 4) => V::R(vec![(rng.u32(), rng.u32())]),
            _ => any_value(rng),
        };
        d.add(t, v);
    }
    if rng.chance(1, 3) {
        // a tag without a name
        d.add(*rng.pick(&[0xfd00u16, 0xfe01, 0x7001, 0x5555]), any_value(rng));
    }
}

pub fn photo_ifd(rng: &mut Rng) -> Ifd {
    let mut d = Ifd::new();
    let n = rng.us(12);
    for _ in 0..n {
        let t = *rng.pick(PHOTO);
        let v = any_value(rng);
        d.add(t, v);
    }
    d
}

pub fn gps_ifd(rng: &mut Rng) -> Ifd {
    let mut d = Ifd::new();
    d.add(0, V::B(vec![2, 3, 0, 0]));
    if rng.chance(1, 2) {
        d.add(1, V::s("N"));
        d.add(2, V::R(vec![(rng.u32(), 1), (rng.u32(), 1), (rng.u32(), 100)]));
    }
    d
}

/// How much a JPEG holds: little, and sometimes more than 16 bits of length.
pub fn body_len(rng: &mut Rng, n: usize) -> usize {
    if rng.chance(1, 80) {
        65000 + rng.us(3000)
    } else {
        rng.us(n)
    }
}

/// An orientation, or none.
pub fn orientation(rng: &mut Rng, d: &mut Ifd) {
    match rng.us(6) {
        0 => {}
        1 => {
            let v = if rng.chance(1, 4) { rng.u32() >> rng.us(32) } else { rng.range(1, 8) as u32 };
            d.add(0x112, V::L(vec![v]));
        }
        _ => {
            let v = if rng.chance(1, 12) { rng.u16() >> rng.us(16) } else { rng.range(1, 8) as u16 };
            d.add(0x112, V::S(vec![v]));
        }
    }
}

pub fn jpeg_dims(rng: &mut Rng) -> (u32, u32) {
    let w = *rng.pick(&[160u32, 120, 320, 570, 640, 1024, 1616, 256, 64]);
    let w = if rng.chance(1, 3) { rng.range(24, 2000) as u32 } else { w };
    let h = (w * 2 / 3).max(20);
    if rng.chance(1, 3) {
        (h, w)
    } else {
        (w, h)
    }
}

/// Fill `d` as a preview and record it. Returns whether a preview is listed for it.
pub fn preview_ifd(cx: &mut Cx, d: &mut Ifd, thumbs: &mut Vec<ExpThumb>, subtype: Option<u32>) {
    let rng = &mut cx.rng;
    let (w, h) = jpeg_dims(rng);
    let mut body = body_len(rng, 200);
    // as much as 8 bits RGB is taken for that
    if body > 200 && (w * h * 3) as usize <= body + 300 {
        body = 200;
    }
    if let Some(s) = subtype {
        d.add(0xfe, V::L(vec![s]));
    } else if rng.chance(2, 3) {
        d.add(0xfe, V::L(vec![1]));
    }
    let long_or_short = |rng: &mut Rng, x: u32| if x > 65535 || rng.chance(1, 2) { V::L(vec![x]) } else { V::S(vec![x as u16]) };
    match rng.us(5) {
        // JPEG in a strip, with or without stated dimensions
        0 | 1 => {
            let j = enc::jpeg(rng, w, h, body);
            let n = j.len() as u32;
            let c = cx.fb.stream(j.clone());
            d.add(0x103, V::S(vec![*cx.rng.pick(&[6u16, 7])]));
            let (mut ew, mut eh) = (w, h);
            if cx.rng.chance(2, 3) {
                // the stated size counts
                if cx.rng.chance(1, 4) {
                    ew += 3;
                    eh += 1;
                }
                d.add(0x100, long_or_short(&mut cx.rng, ew));
                d.add(0x101, long_or_short(&mut cx.rng, eh));
            }
            if cx.rng.chance(1, 2) {
                d.add(0x106, V::S(vec![6]));
            }
            d.add(0x111, V::P(vec![c]));
            d.add(0x117, V::L(vec![n]));
            thumbs.push(ExpThumb { dim: ew.max(eh), w: ew, h: eh, fmt: "Jpeg", data: j });
            cx.tag("preview:jpeg-strip");
        }
        2 | 3 => {
            let j = enc::jpeg(rng, w, h, body);
            let n = j.len() as u32;
            let c = cx.fb.stream(j.clone());
            if cx.rng.chance(1, 2) {
                d.add(0x103, V::S(vec![6]));
            }
            d.add(0x201, V::P(vec![c]));
            d.add(0x202, V::L(vec![n]));
            thumbs.push(ExpThumb { dim: w.max(h), w, h, fmt: "Jpeg", data: j });
            cx.tag("preview:jpeg-interchange");
        }
        _ => {
            let (mut w, mut h) = (rng.range(1, 30) as u32, rng.range(1, 30) as u32);
            if rng.chance(1, 40) {
                // more than 16 bits
                (w, h) = (65530 + rng.below(30) as u32, 1);
                if rng.chance(1, 2) {
                    (w, h) = (h, w);
                }
            }
            let data = rng.bytes((w * h * 3) as usize);
            let c = cx.fb.blob(data.clone());
            d.add(0x100, long_or_short(&mut cx.rng, w));
            d.add(0x101, long_or_short(&mut cx.rng, h));
            d.add(0x102, V::S(vec![8, 8, 8]));
            d.add(0x103, V::S(vec![1]));
            d.add(0x106, V::S(vec![2]));
            d.add(0x111, V::P(vec![c]));
            d.add(0x115, V::S(vec![3]));
            d.add(0x117, V::L(vec![w * h * 3]));
            thumbs.push(ExpThumb { dim: w.max(h), w, h, fmt: "PixmapRgb8", data });
            cx.tag("preview:rgb");
        }
    }
}

pub fn rect(x: u32, y: u32, w: u32, h: u32) -> String {
    format!("{:?}", [x, y, w, h])
}
pub fn quad(v: &[u32]) -> String {
    if v.len() == 4 {
        format!("{:?}", v.iter().map(|x| *x as u16).collect::<Vec<_>>())
    } else {
        format!("{:?}", [v[0] as u16; 4])
    }
}
pub fn u16le(px: &[u16]) -> Vec<u8> {
    px.iter().flat_map(|p| p.to_le_bytes()).collect()
}
pub fn f64s(v: &[f64]) -> String {
    format!("{v:?}")
}

pub const CFA: &[([u8; 4], &str)] = &[([0, 1, 1, 2], "RGGB"), ([1, 2, 0, 1], "GBRG"), ([1, 0, 2, 1], "GRBG"), ([2, 1, 1, 0], "BGGR")];
