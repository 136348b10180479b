//! What a caller can observe of the library, as comparable values.
use libopenraw::metadata::Value;
use libopenraw::{Bitmap, ColourSpace, RawFileHandle, RawImage, RenderingOptions, RenderingStage, Type};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;

use libopenraw::{CfaPattern, Ifd};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Q {
    Type,
    TypeId,
    Mime,
    Vendor,
    Sizes,
    Thumb(u32),
    Raw(bool),
    /// stage, colour space
    Render(u8, u8),
    Orient,
    Matrix(u8),
    Illum(u8),
    MetaAll,
    Meta(String),
    /// 0 main, 1 exif, 2 maker note
    Ifd(u8),
    /// one entry of such a directory
    Entry(u8, u16),
    Dump,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RawOb {
    pub w: u32,
    pub h: u32,
    pub dtype: String,
    pub kind: u8,
    pub bpc: u16,
    pub data: Vec<u8>,
    pub tiles: Vec<usize>,
    pub attrs: BTreeMap<&'static str, String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ob {
    Panic(String),
    Err(String),
    Absent,
    Val(String),
    Thumb { w: u32, h: u32, bpc: u16, fmt: String, data: Vec<u8> },
    Raw(Box<RawOb>),
    Meta(Vec<(String, String, i16)>),
    Text(Vec<u8>),
}

impl Ob {
    pub fn is_ok(&self) -> bool {
        !matches!(self, Ob::Panic(_) | Ob::Err(_) | Ob::Absent)
    }
    /// Short human description.
    pub fn brief(&self) -> String {
        match self {
            Ob::Thumb { w, h, fmt, data, .. } => format!("thumbnail {w}x{h} {fmt} {} bytes {:016x}", data.len(), hash(data)),
            Ob::Raw(r) => format!("raw {}x{} {} bpc {} kind {} {} bytes {:016x} {:?}", r.w, r.h, r.dtype, r.bpc, r.kind, r.data.len(), hash(&r.data), r.attrs),
            Ob::Meta(m) => format!("{} metadata entries", m.len()),
            Ob::Text(t) => format!("text {} bytes {:016x}", t.len(), hash(t)),
            Ob::Err(e) => format!("error {e}"),
            Ob::Val(v) => format!("value {}", clip(v)),
            o => clip(&format!("{o:?}")),
        }
    }
    pub fn digest(&self) -> u64 {
        hash(format!("{:?}", self).as_bytes())
    }
}

pub fn clip(s: &str) -> String {
    if s.len() > 300 {
        let mut e = 300;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    } else {
        s.to_string()
    }
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = simrt::rng::mix(h ^ u64::from_le_bytes(x));
    }
    h
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        simrt::alloc::harness(|| {
            let loc = info.location().map(|l| format!("{}:{}", l.file().trim_start_matches("/repo/"), l.line())).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                String::new()
            };
            let text = format!("{} at {}", msg, loc);
            if std::env::var_os("SIM_BT").is_some() {
                eprintln!("{text}\n{}", std::backtrace::Backtrace::force_capture());
            }
            // an abort may follow (panic in a function that cannot unwind)
            crate::worker::note_panic(&text);
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = text);
        })
    }));
}

/// Run library code: accounted memory, panics caught.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| simrt::alloc::lib(f))) {
        Ok(r) => Ok(r),
        Err(e) => {
            drop(e);
            Err(LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
        }
    }
}

pub fn err_str(e: &libopenraw::Error) -> String {
    match e {
        // the operating system's error code, not its formatting
        libopenraw::Error::IoError(i) => format!("IoError({:?},{:?})", i.kind(), i.raw_os_error()),
        e => format!("{e:?}"),
    }
}

pub fn u16_bytes(v: &[u16]) -> Vec<u8> {
    let mut o = Vec::with_capacity(v.len() * 2);
    for x in v {
        o.extend_from_slice(&x.to_le_bytes());
    }
    o
}

pub fn pattern_name(p: &CfaPattern) -> String {
    match p {
        CfaPattern::NonRgb22(v) => format!("NON_RGB22{:?}", v.iter().map(|c| *c as u8).collect::<Vec<_>>()),
        p => format!("{p}"),
    }
}

pub fn raw_ob(r: &RawImage) -> RawOb {
    let mut tiles = vec![];
    let (kind, data) = if let Some(d) = r.data8() {
        (1, d.to_vec())
    } else if let Some(d) = r.data16() {
        (2, u16_bytes(d))
    } else if let Some(t) = r.tile_data() {
        tiles = t.iter().map(|t| t.len()).collect();
        (3, t.concat())
    } else {
        (0, vec![])
    };
    let mut a: BTreeMap<&'static str, String> = BTreeMap::new();
    a.insert("size", format!("{}", r.data_size()));
    a.insert("whites", format!("{:?}", r.whites()));
    a.insert("blacks", format!("{:?}", r.blacks()));
    a.insert("compression", format!("{:?}", r.compression()));
    a.insert("photometric", format!("{:?}", r.photometric_interpretation()));
    a.insert("active", r.active_area().map(|x| format!("{:?}", x.to_vec())).unwrap_or_default());
    a.insert("crop", r.user_crop().map(|x| format!("{:?}", x.to_vec())).unwrap_or_default());
    a.insert("aspect", r.user_aspect_ratio().map(|x| format!("{}/{}", x.0, x.1)).unwrap_or_default());
    let o = r.output_size();
    a.insert("output", format!("{}x{}", o.width, o.height));
    a.insert("mosaic", pattern_name(r.mosaic_pattern()));
    a.insert("neutral", r.as_shot_neutral().map(|x| format!("{x:?}")).unwrap_or_default());
    a.insert("white_xy", r.as_shot_white_xy().map(|x| format!("{x:?}")).unwrap_or_default());
    a.insert("matrix1", r.colour_matrix(1).map(|m| format!("{:?} {:?}", m.illuminant, m.matrix)).unwrap_or_default());
    a.insert("matrix2", r.colour_matrix(2).map(|m| format!("{:?} {:?}", m.illuminant, m.matrix)).unwrap_or_default());
    a.insert("lin", format!("{:?}", r.linearization_table().map(|t| (t.len(), hash(&u16_bytes(t))))));
    if let Some(t) = r.tile_size() {
        a.insert("tile", format!("{}x{}", t.0, t.1));
    }
    RawOb { w: r.width(), h: r.height(), dtype: format!("{:?}", r.data_type()), kind, bpc: r.bpc(), data, tiles, attrs: a }
}

pub fn value_str(v: &Value) -> String {
    match v {
        Value::Int(v) => format!("Int{v:?}"),
        Value::SInt(v) => format!("SInt{v:?}"),
        Value::String(s) => format!("String{:?}", String::from_utf8_lossy(s)),
        Value::Float(v) => format!("Float{:?}", v.iter().map(|x| x.to_bits()).collect::<Vec<_>>()),
        Value::Double(v) => format!("Double{:?}", v.iter().map(|x| x.to_bits()).collect::<Vec<_>>()),
        Value::Rational(v) => format!("Rational{:?}", v.iter().map(|x| (x.num, x.denom)).collect::<Vec<_>>()),
        Value::SRational(v) => format!("SRational{:?}", v.iter().map(|x| (x.num, x.denom)).collect::<Vec<_>>()),
        Value::Bytes(v) => format!("Bytes{v:?}"),
        Value::SBytes(v) => format!("SBytes{v:?}"),
        Value::Invalid(v) => format!("Invalid{v:?}"),
    }
}

pub fn stage(n: u8) -> RenderingStage {
    match n {
        0 => RenderingStage::Raw,
        1 => RenderingStage::Linearization,
        2 => RenderingStage::Interpolation,
        _ => RenderingStage::Colour,
    }
}
pub fn space(n: u8) -> ColourSpace {
    match n {
        0 => ColourSpace::SRgb,
        1 => ColourSpace::Camera,
        2 => ColourSpace::XYZ,
        _ => ColourSpace::Unknown,
    }
}

/// Tags read through the directory accessors.
pub const TAGS: &[u16] = &[
    0xfe, 0x100, 0x101, 0x102, 0x103, 0x106, 0x10e, 0x10f, 0x110, 0x111, 0x112, 0x115, 0x116, 0x117, 0x11a, 0x131, 0x132, 0x13b, 0x142, 0x143, 0x144, 0x145, 0x14a, 0x201, 0x202,
    0x828e, 0x829a, 0x829d, 0x8769, 0x8825, 0x8827, 0x9000, 0x9003, 0x927c, 0x9286, 0xa217, 0xa302, 0xc612, 0xc614, 0xc618, 0xc61a, 0xc61d, 0xc61f, 0xc620, 0xc621, 0xc622, 0xc628, 0xc65a,
    0xc68d, 1, 2, 3, 4, 0x10, 0x4001, 0x3d, 0x96, 0x220, 0x100,
];

pub fn entry_str(s: Option<String>, u: Option<Vec<u32>>, i: Option<Vec<i32>>, f: Option<Vec<f64>>) -> String {
    format!("s {s:?} u {u:?} i {i:?} f {:?}", f.map(|v| v.iter().map(|x| x.to_string()).collect::<Vec<_>>()))
}
macro_rules! ifd_ob {
    ($d:expr) => {{
    let en = $d.endian();
    let mut s = format!("type {:?} n {} next {} id {:?}", $d.ifd_type(), $d.num_entries(), $d.next_ifd(), $d.id());
    let names: Vec<_> = TAGS.iter().map(|t| $d.tag_name(*t)).collect();
    s.push_str(&format!("\nnames {}", names.join(",")));
    for t in TAGS {
        if let Some(e) = $d.entry(*t) {
            s.push_str(&format!(
                "\n{:x} {} inline {} s {:?} u {:?} i {:?} f {:?} uv {:?}",
                t,
                $d.tag_name(*t),
                e.is_inline(),
                e.string_value(),
                e.uint_value_array(en),
                e.int_value_array(en),
                e.float_value_array(en).map(|v| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>()),
                $d.uint_value(*t),
            ));
        }
    }
    Ob::Val(s)
}};
}

pub fn query(h: &RawFileHandle, q: &Q) -> Ob {
    crate::worker::set_op(q);
    let r = match q {
        Q::Type => guard(|| h.type_()).map(|t| Ob::Val(format!("{t:?}"))),
        Q::TypeId => guard(|| h.type_id()).map(|r| match r {
            Ok(t) => Ob::Val(format!("{:#010x}", u32::from(t))),
            Err(e) => Ob::Err(err_str(&e)),
        }),
        Q::Mime => guard(|| h.mime_type()).map(|t| Ob::Val(t.to_string())),
        Q::Vendor => guard(|| h.vendor_id()).map(|r| match r {
            Ok(t) => Ob::Val(format!("{t}")),
            Err(e) => Ob::Err(err_str(&e)),
        }),
        Q::Sizes => guard(|| h.thumbnail_sizes().map(|s| s.to_vec())).map(|s| match s {
            Some(v) => Ob::Val(format!("{v:?}")),
            None => Ob::Absent,
        }),
        Q::Thumb(n) => guard(|| h.thumbnail(*n)).map(|r| match r {
            Ok(t) => Ob::Thumb { w: t.width(), h: t.height(), bpc: t.bpc(), fmt: format!("{:?}", t.data_type()), data: t.data8().map(|d| d.to_vec()).unwrap_or_default() },
            Err(e) => Ob::Err(err_str(&e)),
        }),
        Q::Raw(skip) => guard(|| h.raw_data(*skip)).map(|r| match r {
            Ok(r) => Ob::Raw(Box::new(raw_ob(&r))),
            Err(e) => Ob::Err(err_str(&e)),
        }),
        Q::Render(s, c) => guard(|| h.rendered_image(RenderingOptions::default().with_stage(stage(*s)).with_target(space(*c)))).map(|r| match r {
            Ok(r) => Ob::Raw(Box::new(raw_ob(&r))),
            Err(e) => Ob::Err(err_str(&e)),
        }),
        Q::Orient => guard(|| h.orientation()).map(|v| Ob::Val(v.to_string())),
        Q::Matrix(i) => guard(|| h.colour_matrix(*i as usize)).map(|r| match r {
            Ok((o, v)) => Ob::Val(format!("{o:?} {:?}", v.iter().map(|x| x.to_bits()).collect::<Vec<_>>())),
            Err(e) => Ob::Err(err_str(&e)),
        }),
        Q::Illum(i) => guard(|| h.calibration_illuminant(*i as usize)).map(|v| Ob::Val(format!("{v:?}"))),
        Q::MetaAll => guard(|| h.metadata().map(|it| it.collect::<Vec<_>>())).map(|m| match m {
            Some(m) => Ob::Meta(m.iter().map(|(k, v, t)| (k.clone(), value_str(v), *t)).collect()),
            None => Ob::Absent,
        }),
        Q::Meta(k) => guard(|| h.metadata_value(k)).map(|v| match v {
            Some(v) => {
                let s = value_str(&v);
                match guard(|| (v.count(), v.string(), v.into_string(true), v.into_string(false), v.integer(), v.rational().map(|r| (r.num, r.denom)))) {
                    Ok(x) => Ob::Val(format!("{s} {x:?}")),
                    Err(e) => Ob::Panic(e),
                }
            }
            None => Ob::Absent,
        }),
        Q::Ifd(n) => guard(|| {
            match n {
                0 => h.main_ifd(),
                1 => h.exif_ifd(),
                _ => h.maker_note_ifd(),
            }
            .map(|d| ifd_ob!(d))
        })
        .map(|o| o.unwrap_or(Ob::Absent)),
        Q::Entry(n, t) => guard(|| {
            match n {
                0 => h.main_ifd(),
                1 => h.exif_ifd(),
                _ => h.maker_note_ifd(),
            }
            .and_then(|d| d.entry(*t).map(|e| {
                let en = d.endian();
                Ob::Val(entry_str(e.string_value(), e.uint_value_array(en), e.int_value_array(en), e.float_value_array(en)))
            }))
        })
        .map(|o| o.unwrap_or(Ob::Absent)),
        Q::Dump => {
            let mut out: Vec<u8> = vec![];
            guard(|| h.dump_file(&mut out)).map(|_| Ob::Text(out))
        }
    };
    crate::worker::end_op();
    r.unwrap_or_else(Ob::Panic)
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum How {
    Path,
    Mem,
    /// the caller's own reader of that capacity, left at some position
    Io(u16),
}

pub fn hint_of(n: u32) -> Option<Type> {
    Some(match n {
        1 => Type::Cr2,
        2 => Type::Crw,
        3 => Type::Nef,
        4 => Type::Mrw,
        5 => Type::Arw,
        6 => Type::Dng,
        7 => Type::Orf,
        8 => Type::Pef,
        9 => Type::Erf,
        10 => Type::Tiff,
        11 => Type::Nrw,
        12 => Type::Rw2,
        13 => Type::Raf,
        14 => Type::Cr3,
        15 => Type::Gpr,
        16 => Type::Sr2,
        17 => Type::Rw,
        100 => Type::Jpeg,
        _ => return None,
    })
}

pub fn open_path(name: &str, hint: Option<Type>) -> Result<RawFileHandle, Ob> {
    crate::worker::set_op_str("open");
    let r = match guard(|| libopenraw::rawfile_from_file(format!("/simfs/{name}"), hint)) {
        Ok(Ok(h)) => Ok(h),
        Ok(Err(e)) => Err(Ob::Err(err_str(&e))),
        Err(p) => Err(Ob::Panic(p)),
    };
    crate::worker::end_op();
    r
}
pub fn open_mem(data: &[u8], hint: Option<Type>) -> Result<RawFileHandle, Ob> {
    crate::worker::set_op_str("open");
    let r = match guard(|| libopenraw::rawfile_from_memory(data.to_vec(), hint)) {
        Ok(Ok(h)) => Ok(h),
        Ok(Err(e)) => Err(Ob::Err(err_str(&e))),
        Err(p) => Err(Ob::Panic(p)),
    };
    crate::worker::end_op();
    r
}
pub fn open_io(name: &str, cap: u16, hint: Option<Type>) -> Result<RawFileHandle, Ob> {
    use std::io::{Seek, SeekFrom};
    crate::worker::set_op_str("open");
    let r = match guard(|| {
        let mut b = std::io::BufReader::with_capacity(cap as usize, std::fs::File::open(format!("/simfs/{name}"))?);
        let _ = b.seek(SeekFrom::Start(cap as u64 * 7));
        libopenraw::rawfile_from_io(Box::new(b), hint)
    }) {
        Ok(Ok(h)) => Ok(h),
        Ok(Err(e)) => Err(Ob::Err(err_str(&e))),
        Err(p) => Err(Ob::Panic(p)),
    };
    crate::worker::end_op();
    r
}
/// Drop a handle as library code.
pub fn close(h: RawFileHandle) {
    let _ = guard(move || drop(h));
}

pub const META_KEYS: &[&str] = &[
    "Exif.Image.Make",
    "Exif.Image.Model",
    "Exif.Image.Orientation",
    "Exif.Image.Software",
    "Exif.Image.ModifyDate",
    "Exif.Image.SubfileType",
    "Exif.Image.XResolution",
    "Exif.Image.ImageDescription",
    "Exif.Image.Nothing",
    "Exif.Photo.ISOSpeedRatings",
    "Exif.Image.Artist",
    "Exif.Image.Copyright",
];

/// Every query, for a full observation.
pub fn all_queries(thumbs: &[u32]) -> Vec<Q> {
    let mut v = vec![Q::Type, Q::TypeId, Q::Mime, Q::Vendor, Q::Sizes, Q::Thumb(0), Q::Thumb(160), Q::Thumb(1000), Q::Thumb(100000)];
    for t in thumbs {
        for d in [t.saturating_sub(1), *t, t + 1] {
            if !v.contains(&Q::Thumb(d)) {
                v.push(Q::Thumb(d));
            }
        }
    }
    v.extend([Q::Raw(true), Q::Raw(false), Q::Render(1, 0), Q::Render(2, 0), Q::Render(3, 0), Q::Orient, Q::Matrix(1), Q::Matrix(2), Q::Illum(1), Q::Illum(2), Q::MetaAll]);
    for k in META_KEYS {
        v.push(Q::Meta(k.to_string()));
    }
    v.extend([Q::Ifd(0), Q::Ifd(1), Q::Ifd(2), Q::Dump]);
    v
}

pub type Obs = Vec<(Q, Ob)>;

pub fn observe(h: &RawFileHandle, qs: &[Q]) -> Obs {
    qs.iter().map(|q| (q.clone(), query(h, q))).collect()
}
