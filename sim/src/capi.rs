//! The C interface: its calls, and histories of them over an object table.
use crate::obs::*;
use crate::props::{a_file, hint_for, note_counts, open_as, step_budget, syn, viol};
use crate::scen::*;
use crate::worker::Out;
use libopenraw::tiff::IfdType;
use libopenraw::{Bitmap, DataType, Ifd, RawFileHandle, RenderingOptions};
use simrt::rng::{mix, Rng};
use simrt::{alloc, clock, disk};
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_void, CString};

type P = *mut c_void;
type CP = *const c_void;

extern "C" {
    fn or_rawfile_new(name: *const c_char, t: u32) -> P;
    fn or_rawfile_new_from_memory(b: *const u8, len: u32, t: u32) -> P;
    fn or_rawfile_release(p: P) -> u32;
    fn or_rawfile_get_type(p: P) -> u32;
    fn or_rawfile_get_typeid(p: P) -> u32;
    fn or_rawfile_get_vendorid(p: P) -> u32;
    fn or_rawfile_get_rawdata(p: P, options: u32, err: *mut u32) -> P;
    fn or_rawfile_get_orientation(p: P) -> i32;
    fn or_rawfile_get_thumbnail(p: P, size: u32, err: *mut u32) -> P;
    fn or_rawfile_get_thumbnail_sizes(p: P, n: *mut usize) -> *const u32;
    fn or_rawfile_get_metavalue(p: P, key: *const c_char) -> P;
    fn or_rawfile_get_rendered_image(p: P, options: u32, err: *mut u32) -> P;
    fn or_rawfile_get_ifd(p: P, t: u32) -> CP;
    fn or_rawfile_get_calibration_illuminant1(p: P) -> u32;
    fn or_rawfile_get_calibration_illuminant2(p: P) -> u32;
    fn or_rawfile_get_colourmatrix1(p: P, m: *mut f64, n: *mut u32) -> u32;
    fn or_rawfile_get_colourmatrix2(p: P, m: *mut f64, n: *mut u32) -> u32;
    fn or_rawfile_get_colour_matrix_origin(p: P) -> u32;
    fn or_rawfile_get_metadata_iterator(p: P) -> P;
    fn or_metadata_iterator_free(p: P);
    fn or_metadata_iterator_next(p: P) -> c_int;
    fn or_metadata_iterator_get_entry(p: P) -> CP;
    fn or_metadata_iterator_get_dir(p: P) -> CP;
    fn or_metadata_get_key(p: CP) -> *const c_char;
    fn or_metadata_get_value(p: CP) -> CP;
    fn or_metadata_get_type(p: CP) -> i16;
    fn or_metavalue_release(p: P);
    fn or_metavalue_get_string(p: CP) -> *const c_char;
    fn or_metavalue_get_as_string(p: CP, full: bool) -> *const c_char;
    fn or_metavalue_get_count(p: CP) -> u32;
    fn or_ifd_count_tags(p: CP) -> i32;
    fn or_ifd_get_makernote_id(p: CP) -> *const c_char;
    fn or_ifd_get_type(p: CP) -> u32;
    fn or_ifd_get_tag_name(p: CP, tag: u32) -> *const c_char;
    fn or_rawdata_new() -> P;
    fn or_rawdata_release(p: P) -> u32;
    fn or_rawdata_data_size(p: P) -> usize;
    fn or_rawdata_data(p: P) -> *const u8;
    fn or_rawdata_format(p: P) -> u32;
    fn or_rawdata_levels(p: P, b: *mut u16, w: *mut u16) -> u32;
    fn or_rawdata_as_shot_neutral(p: P, wb: *mut f64) -> u32;
    fn or_rawdata_as_shot_white_xy(p: P, x: *mut f64, y: *mut f64) -> u32;
    fn or_rawdata_dimensions(p: P, x: *mut u32, y: *mut u32);
    fn or_rawdata_get_cfa_pattern_type(p: P) -> u32;
    fn or_rawdata_get_compression(p: P) -> u32;
    fn or_rawdata_bpc(p: P) -> u32;
    fn or_rawdata_get_colour_matrix(p: P, i: u32, n: *mut u32) -> *const f64;
    fn or_rawdata_get_active_area(p: P, x: *mut u32, y: *mut u32, w: *mut u32, h: *mut u32) -> u32;
    fn or_rawdata_get_user_crop(p: P, x: *mut u32, y: *mut u32, w: *mut u32, h: *mut u32) -> u32;
    fn or_rawdata_get_user_aspect_ratio(p: P, w: *mut u32, h: *mut u32) -> u32;
    fn or_rawdata_get_mosaicinfo(p: P) -> CP;
    fn or_thumbnail_new() -> P;
    fn or_thumbnail_release(p: P) -> u32;
    fn or_thumbnail_data_size(p: P) -> usize;
    fn or_thumbnail_data(p: P) -> *const u8;
    fn or_thumbnail_format(p: P) -> u32;
    fn or_thumbnail_dimensions(p: P, x: *mut u32, y: *mut u32);
    fn or_bitmapdata_release(p: P) -> u32;
    fn or_bitmapdata_data_size(p: P) -> usize;
    fn or_bitmapdata_data(p: P) -> *const u8;
    fn or_bitmapdata_format(p: P) -> u32;
    fn or_bitmapdata_dimensions(p: P, x: *mut u32, y: *mut u32);
    fn or_mosaicinfo_get_type(p: CP) -> u32;
    fn or_mosaicinfo_get_pattern(p: CP, n: *mut u16) -> *const u8;
    fn or_get_extract_thumbnail(name: *const c_char, size: u32, t: *mut P) -> u32;
    fn or_get_extract_rawdata(name: *const c_char, options: u32, r: *mut P) -> u32;
    fn or_get_file_extensions() -> *const *const c_char;
    fn or_get_mime_types() -> *const *const c_char;
    fn or_get_type_for_mime_type(m: *const c_char) -> u32;
    fn or_debug_set_level(l: u32);
}

const NONE: u32 = 0;
const BUF_TOO_SMALL: u32 = 1;
const NOT_AREF: u32 = 2;
const NOT_FOUND: u32 = 5;
const INVALID_PARAM: u32 = 6;
/// What an error variable holds before the call.
const STALE: u32 = 0x5a5a;

fn lib<R>(f: impl FnOnce() -> R) -> R {
    alloc::lib(f)
}

fn cpath(name: &str) -> CString {
    CString::new(format!("/simfs/{name}")).unwrap()
}

/// Read a C string; at most a bounded number of bytes.
fn cstr(p: *const c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let mut v = vec![];
    for i in 0..1 << 22 {
        let c = unsafe { *p.add(i) } as u8;
        if c == 0 {
            return Some(String::from_utf8_lossy(&v).to_string());
        }
        v.push(c);
    }
    Some("NOT TERMINATED".into())
}

fn bytes(p: *const u8, n: usize) -> Option<&'static [u8]> {
    if p.is_null() {
        None
    } else {
        Some(unsafe { std::slice::from_raw_parts(p, n) })
    }
}

fn data_type(t: DataType) -> u32 {
    match t {
        DataType::PixmapRgb8 => 1,
        DataType::PixmapRgb16 => 2,
        DataType::Jpeg => 3,
        DataType::Raw => 6,
        DataType::CompressedRaw => 7,
        _ => 100,
    }
}

fn code_of(e: &libopenraw::Error) -> u32 {
    match e {
        libopenraw::Error::NotFound => NOT_FOUND,
        _ => 42,
    }
}

// ---------------------------------------------------------- what objects hold

fn thumb_text(p: P) -> String {
    lib(|| unsafe {
        let (mut x, mut y) = (STALE, STALE);
        or_thumbnail_dimensions(p, &mut x, &mut y);
        let n = or_thumbnail_data_size(p);
        let d = bytes(or_thumbnail_data(p), n);
        format!("thumb {x}x{y} {} {n} {:?}", or_thumbnail_format(p), d.map(hash))
    })
}

fn bitmap_text(p: P) -> String {
    lib(|| unsafe {
        let (mut x, mut y) = (STALE, STALE);
        or_bitmapdata_dimensions(p, &mut x, &mut y);
        let n = or_bitmapdata_data_size(p);
        let d = bytes(or_bitmapdata_data(p), n);
        format!("bitmap {x}x{y} {} {n} {:?}", or_bitmapdata_format(p), d.map(hash))
    })
}

fn quad(r: u32, v: [u32; 4]) -> String {
    if r == NONE {
        format!("{v:?}")
    } else {
        format!("code {r}")
    }
}

fn raw_text(p: P) -> String {
    lib(|| unsafe {
        let (mut x, mut y) = (STALE, STALE);
        or_rawdata_dimensions(p, &mut x, &mut y);
        let n = or_rawdata_data_size(p);
        let d = bytes(or_rawdata_data(p), n).map(hash);
        let (mut b, mut w) = ([0xa5a5u16; 4], [0xa5a5u16; 4]);
        or_rawdata_levels(p, b.as_mut_ptr(), w.as_mut_ptr());
        let mut nb = [1e9f64; 4];
        let nr = or_rawdata_as_shot_neutral(p, nb.as_mut_ptr());
        let (mut wx, mut wy) = (1e9, 1e9);
        let xr = or_rawdata_as_shot_white_xy(p, &mut wx, &mut wy);
        let mut a = [STALE; 4];
        let ar = or_rawdata_get_active_area(p, &mut a[0], &mut a[1], &mut a[2], &mut a[3]);
        let mut c = [STALE; 4];
        let cr = or_rawdata_get_user_crop(p, &mut c[0], &mut c[1], &mut c[2], &mut c[3]);
        let mut s = [STALE; 4];
        let sr = or_rawdata_get_user_aspect_ratio(p, &mut s[0], &mut s[1]);
        let mut mats = vec![];
        for i in 1..=2 {
            let mut k = STALE;
            let m = or_rawdata_get_colour_matrix(p, i, &mut k);
            mats.push(if m.is_null() { None } else { Some(std::slice::from_raw_parts(m, k as usize).iter().map(|v| v.to_bits()).collect::<Vec<_>>()) });
        }
        let mo = or_rawdata_get_mosaicinfo(p);
        let mut pn = 0xa5a5u16;
        let pat = or_mosaicinfo_get_pattern(mo, &mut pn);
        let pat = bytes(pat, pn as usize).map(|v| v.to_vec()).unwrap_or_default();
        format!(
            "raw {x}x{y} fmt {} size {n} {d:?} bpc {} comp {} blacks {b:?} whites {w:?} neutral {} xy {} active {} crop {} aspect {} matrices {mats:?} cfa {} {} {pat:?}",
            or_rawdata_format(p),
            or_rawdata_bpc(p),
            or_rawdata_get_compression(p),
            if nr == NONE { format!("{:?}", nb.map(|v| if v.is_nan() { 1 } else { v.to_bits() })) } else { format!("code {nr}") },
            if xr == NONE { format!("{:?}", (wx.to_bits(), wy.to_bits())) } else { format!("code {xr}") },
            quad(ar, a),
            quad(cr, c),
            if sr == NONE { format!("{}/{}", s[0], s[1]) } else { format!("code {sr}") },
            or_rawdata_get_cfa_pattern_type(p),
            or_mosaicinfo_get_type(mo),
        )
    })
}

/// The same from the Rust interface.
fn rust_raw_text(r: &libopenraw::RawImage) -> String {
    let d = r.data8().map(hash).or_else(|| r.data16().map(|d| hash(&u16_bytes(d))));
    let rect = |x: Option<&libopenraw::Rect>| x.map(|x| format!("{:?}", x.to_vec())).unwrap_or(format!("code {NOT_FOUND}"));
    let p = r.mosaic_pattern();
    let k = p.pattern_type() as u32;
    let mats: Vec<_> = (1..=2).map(|i| r.colour_matrix(i).map(|m| m.matrix.iter().map(|v| v.to_bits()).collect::<Vec<_>>())).collect();
    format!(
        "raw {}x{} fmt {} size {} {d:?} bpc {} comp {} blacks {:?} whites {:?} neutral {} xy {} active {} crop {} aspect {} matrices {mats:?} cfa {k} {k} {:?}",
        r.width(),
        r.height(),
        data_type(r.data_type()),
        r.data_size(),
        r.bpc(),
        r.compression() as u32,
        r.blacks(),
        r.whites(),
        r.as_shot_neutral().map(|x| format!("{:?}", x.iter().map(|v| if v.is_nan() { 1 } else { v.to_bits() }).collect::<Vec<_>>())).unwrap_or(format!("code {NOT_FOUND}")),
        r.as_shot_white_xy().map(|x| format!("{:?}", (x.0.to_bits(), x.1.to_bits()))).unwrap_or(format!("code {NOT_FOUND}")),
        rect(r.active_area()),
        rect(r.user_crop()),
        r.user_aspect_ratio().map(|x| format!("{}/{}", x.0, x.1)).unwrap_or(format!("code {NOT_FOUND}")),
        p.pattern().iter().map(|c| *c as u8).collect::<Vec<_>>()
    )
}

fn rust_bitmap_text(r: &libopenraw::RawImage) -> String {
    let n = r.data_size();
    let d = if r.data_type() == DataType::PixmapRgb16 { r.data16().map(|d| hash(&u16_bytes(d))) } else { r.data8().map(hash) };
    format!("bitmap {}x{} {} {n} {d:?}", r.width(), r.height(), data_type(r.data_type()))
}

fn rust_thumb_text(t: &libopenraw::Thumbnail) -> String {
    format!("thumb {}x{} {} {} {:?}", t.width(), t.height(), data_type(t.data_type()), t.data_size(), t.data8().map(hash))
}

fn meta_text(p: CP) -> String {
    lib(|| unsafe { format!("value {} {:?} {:?}", or_metavalue_get_count(p), cstr(or_metavalue_get_as_string(p, true)), cstr(or_metavalue_get_string(p))) })
}

/// C strings end at the first NUL.
fn cut(s: &str) -> String {
    s.split('\0').next().unwrap_or("").to_string()
}

fn rust_meta_text(v: &libopenraw::metadata::Value) -> String {
    let s = match v {
        libopenraw::metadata::Value::String(s) => Some(String::from_utf8_lossy(s.split(|c| *c == 0).next().unwrap_or(&[])).to_string()),
        _ => None,
    };
    format!("value {} {:?} {:?}", v.count() as u32, Some(cut(&v.into_string(true))), s)
}

fn dir_text(d: CP) -> String {
    if d.is_null() {
        return "no dir".into();
    }
    lib(|| unsafe {
        let names: Vec<_> = TAGS.iter().map(|t| cstr(or_ifd_get_tag_name(d, *t as u32))).collect();
        format!("dir {} {} {:?} {names:?}", or_ifd_count_tags(d), or_ifd_get_type(d), cstr(or_ifd_get_makernote_id(d)))
    })
}

fn ifd_num(t: IfdType) -> u32 {
    match t {
        IfdType::Other => 0,
        IfdType::Main => 1,
        IfdType::Exif => 2,
        IfdType::MakerNote => 3,
        IfdType::Raw => 4,
        IfdType::SubIfd => 5,
        IfdType::GpsInfo => 6,
    }
}
const IFDS: [IfdType; 7] = [IfdType::Other, IfdType::Main, IfdType::Exif, IfdType::MakerNote, IfdType::Raw, IfdType::SubIfd, IfdType::GpsInfo];

macro_rules! rust_dir_text {
    ($d:expr) => {
        match $d {
            None => "no dir".to_string(),
            Some(d) => {
                let names: Vec<_> = TAGS.iter().map(|t| Some(d.tag_name(*t).to_string())).collect();
                format!("dir {} {} {:?} {names:?}", d.num_entries(), ifd_num(d.ifd_type()), Some(cut(&String::from_utf8_lossy(d.id()))))
            }
        }
    };
}

fn iter_text(p: P) -> String {
    lib(|| unsafe {
        let e = or_metadata_iterator_get_entry(p);
        let d = or_metadata_iterator_get_dir(p);
        let e = if e.is_null() { "no entry".to_string() } else { format!("{:?} {} {}", cstr(or_metadata_get_key(e)), or_metadata_get_type(e), meta_text(or_metadata_get_value(e))) };
        let d = if d.is_null() { "no dir".to_string() } else { format!("dir {} {}", or_ifd_count_tags(d), or_ifd_get_type(d)) };
        format!("{e} in {d}")
    })
}

fn sizes(p: P) -> Option<Vec<u32>> {
    lib(|| unsafe {
        let mut n = 0xdeadusize;
        let s = or_rawfile_get_thumbnail_sizes(p, &mut n);
        if s.is_null() {
            None
        } else {
            Some((0..n).map(|i| *s.add(i)).collect())
        }
    })
}

// ------------------------------------------------------------------ C06 part

/// Every C accessor against its Rust counterpart on the same bytes.
pub fn compare(s: &Scen, f: &Loaded, o: &mut Out) {
    let hint = f.syn.as_ref().map(hint_for).unwrap_or(0);
    let mem = s.seed & 1 == 1;
    let Ok(h) = open_as(f, &f.name, How::Path, hint) else { return };
    crate::worker::set_op_str("C accessors");
    let p = lib(|| unsafe {
        if mem {
            or_rawfile_new_from_memory(f.bytes.as_ptr(), f.bytes.len() as u32, hint)
        } else {
            or_rawfile_new(cpath(&f.name).as_ptr(), hint)
        }
    });
    if p.is_null() {
        return viol(o, "c:open", "or_rawfile_new failed where the Rust interface opened the file");
    }
    let mut bad: Option<(String, String, String)> = None;
    let mut n = 0;
    macro_rules! eq {
        ($name:expr, $c:expr, $rust:expr) => {
            if bad.is_none() {
                n += 1;
                let (c, r): (String, String) = ($c, $rust);
                if c != r {
                    bad = Some(($name.to_string(), c, r));
                }
            }
        };
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lib(|| unsafe {
        eq!("type", format!("{}", or_rawfile_get_type(p)), format!("{}", h.type_() as u32));
        eq!("typeid", format!("{}", or_rawfile_get_typeid(p)), format!("{}", h.type_id().map(u32::from).unwrap_or(0)));
        eq!("vendorid", format!("{}", or_rawfile_get_vendorid(p)), format!("{}", h.vendor_id().map(u32::from).unwrap_or(0)));
        eq!("orientation", format!("{}", or_rawfile_get_orientation(p)), format!("{}", h.orientation() as i32));
        let rs = h.thumbnail_sizes().map(|v| v.to_vec());
        eq!("thumbnail_sizes", format!("{:?}", sizes(p)), format!("{rs:?}"));
        let mut want = vec![0u32, 1, 160, 1000, 100000];
        for v in rs.unwrap_or_default() {
            want.extend([v, v.saturating_sub(1), v.saturating_add(1)]);
        }
        for v in want {
            let mut e = STALE;
            let t = or_rawfile_get_thumbnail(p, v, &mut e);
            let c = if t.is_null() { format!("code {e}") } else { format!("{} {e}", thumb_text(t)) };
            if !t.is_null() {
                or_thumbnail_release(t);
            }
            let r = match h.thumbnail(v) {
                Ok(t) => format!("{} 0", rust_thumb_text(&t)),
                Err(e) => format!("code {}", code_of(&e)),
            };
            eq!("thumbnail", c, r);
        }
        for skip in [true, false] {
            let mut e = STALE;
            let t = or_rawfile_get_rawdata(p, skip as u32, &mut e);
            let c = if t.is_null() { format!("code {e}") } else { format!("{} {e}", raw_text(t)) };
            if !t.is_null() {
                or_rawdata_release(t);
            }
            let r = match h.raw_data(skip) {
                Ok(t) => format!("{} 0", rust_raw_text(&t)),
                Err(e) => format!("code {}", code_of(&e)),
            };
            eq!("rawdata", c, r);
        }
        for st in 0..4u32 {
            let mut e = STALE;
            let t = or_rawfile_get_rendered_image(p, st << 4 | 3, &mut e);
            let c = if t.is_null() { format!("code {e}") } else { format!("{} {e}", bitmap_text(t)) };
            if !t.is_null() {
                or_bitmapdata_release(t);
            }
            // the stage numbers follow the interface's constants
            let r = match h.rendered_image(RenderingOptions::from(st << 4 | 3)) {
                Ok(t) => format!("{} 0", rust_bitmap_text(&t)),
                Err(e) => format!("code {}", code_of(&e)),
            };
            eq!("rendered_image", c, r);
        }
        for k in META_KEYS {
            let ck = CString::new(*k).unwrap();
            let v = or_rawfile_get_metavalue(p, ck.as_ptr());
            let c = if v.is_null() { "absent".to_string() } else { meta_text(v) };
            or_metavalue_release(v);
            eq!(*k, c, h.metadata_value(k).map(|v| rust_meta_text(&v)).unwrap_or("absent".into()));
        }
        for (i, t) in IFDS.iter().enumerate() {
            eq!("ifd", dir_text(or_rawfile_get_ifd(p, i as u32)), rust_dir_text!(h.ifd(*t)));
        }
        eq!("illuminant1", format!("{}", or_rawfile_get_calibration_illuminant1(p)), format!("{}", h.calibration_illuminant(1) as u32));
        eq!("illuminant2", format!("{}", or_rawfile_get_calibration_illuminant2(p)), format!("{}", h.calibration_illuminant(2) as u32));
        for i in 1..=2usize {
            let mut m = [0f64; 64];
            let mut k = 64;
            let e = if i == 1 { or_rawfile_get_colourmatrix1(p, m.as_mut_ptr(), &mut k) } else { or_rawfile_get_colourmatrix2(p, m.as_mut_ptr(), &mut k) };
            let r = h.colour_matrix(i);
            if r.as_ref().map(|m| m.1.len() > 64).unwrap_or(false) {
                continue;
            }
            let c = if e == NONE { format!("{:?}", m[..k as usize].iter().map(|v| v.to_bits()).collect::<Vec<_>>()) } else { format!("code {e}") };
            let r = match r {
                Ok(m) => format!("{:?}", m.1.iter().map(|v| v.to_bits()).collect::<Vec<_>>()),
                Err(e) => format!("code {}", code_of(&e)),
            };
            eq!(format!("colourmatrix{i}"), c, r);
        }
        eq!("colour_matrix_origin", format!("{}", or_rawfile_get_colour_matrix_origin(p)), format!("{}", h.colour_matrix(1).map(|m| m.0 as u32).unwrap_or(0)));
        let it = or_rawfile_get_metadata_iterator(p);
        let mut c = vec![];
        while or_metadata_iterator_next(it) != 0 {
            let e = or_metadata_iterator_get_entry(it);
            c.push(format!("{:?} {} {}", cstr(or_metadata_get_key(e)), or_metadata_get_type(e), meta_text(or_metadata_get_value(e))));
        }
        or_metadata_iterator_free(it);
        let r: Vec<String> = h.metadata().map(|it| it.map(|(k, v, t)| format!("{:?} {t} {}", Some(cut(&k)), rust_meta_text(&v))).collect()).unwrap_or_default();
        for i in 0..c.len().max(r.len()) {
            eq!("iterator", c.get(i).cloned().unwrap_or("end".into()), r.get(i).cloned().unwrap_or("end".into()));
        }
    })));
    if let Err(e) = r {
        drop(e);
        // a panic of the Rust side is judged elsewhere
        return;
    }
    // extraction without a handle, by the file's name
    let rust = open_as(f, &f.name, How::Path, 0);
    let size = [160u32, 1000, 64][(s.seed >> 1) as usize % 3];
    let (mut t, mut r) = (std::ptr::null_mut(), std::ptr::null_mut());
    let path = cpath(&f.name);
    let (et, er) = lib(|| unsafe { (or_get_extract_thumbnail(path.as_ptr(), size, &mut t), or_get_extract_rawdata(path.as_ptr(), 1, &mut r)) });
    let c = if et == NONE { thumb_text(t) } else { format!("code {et}") };
    let cr = if er == NONE { raw_text(r) } else { format!("code {er}") };
    lib(|| unsafe {
        or_thumbnail_release(t);
        or_rawdata_release(r);
    });
    match &rust {
        Ok(h) => {
            if let Ok(x) = guard(|| h.thumbnail(size).map(|t| rust_thumb_text(&t)).unwrap_or_else(|e| format!("code {}", code_of(&e)))) {
                eq!("or_get_extract_thumbnail", c, x);
            }
            if let Ok(x) = guard(|| h.raw_data(true).map(|t| rust_raw_text(&t)).unwrap_or_else(|e| format!("code {}", code_of(&e)))) {
                eq!("or_get_extract_rawdata", cr, x);
            }
        }
        Err(Ob::Panic(_)) => {}
        Err(_) => {
            eq!("or_get_extract_thumbnail", format!("{}", c.starts_with("code")), "true".to_string());
            eq!("or_get_extract_rawdata", format!("{}", cr.starts_with("code")), "true".to_string());
        }
    }
    if let Ok(h) = rust {
        close(h);
    }
    lib(|| unsafe { or_rawfile_release(p) });
    close(h);
    crate::worker::end_op();
    o.count("C accessors compared", n);
    if let Some((name, c, r)) = bad {
        viol(o, format!("c:{name}"), format!("{name} ({}): C interface {}, Rust {}", if mem { "from memory" } else { "by path" }, clip(&c), clip(&r)));
    }
}

// ------------------------------------------------------- histories of C calls

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    File,
    Thumb,
    Raw,
    Bitmap,
    Meta,
    Iter,
}

struct Obj {
    k: K,
    p: P,
    /// which file it comes from
    file: usize,
    text: String,
    /// borrowed from a file: thumbnail sizes and directories
    lent_sizes: Option<(*const u32, Vec<u32>)>,
    lent_dirs: Vec<(CP, String)>,
    /// an iterator's position
    at: usize,
    done: bool,
}

impl Obj {
    fn text(&self) -> String {
        match self.k {
            K::File => lib(|| unsafe { format!("file {}", or_rawfile_get_type(self.p)) }),
            K::Thumb => thumb_text(self.p),
            K::Raw => raw_text(self.p),
            K::Bitmap => bitmap_text(self.p),
            K::Meta => meta_text(self.p),
            K::Iter => iter_text(self.p),
        }
    }
    fn release(&self) -> u32 {
        lib(|| unsafe {
            match self.k {
                K::File => or_rawfile_release(self.p),
                K::Thumb => or_thumbnail_release(self.p),
                K::Raw => or_rawdata_release(self.p),
                K::Bitmap => or_bitmapdata_release(self.p),
                K::Meta => {
                    or_metavalue_release(self.p);
                    NONE
                }
                K::Iter => {
                    or_metadata_iterator_free(self.p);
                    NONE
                }
            }
        })
    }
}

/// What happened, when nothing shall be judged.
pub struct Silent;
pub trait Sink {
    fn bad(&mut self, class: &str, detail: String);
    fn count(&mut self, k: &str);
    fn judging(&self) -> bool;
}
impl Sink for Silent {
    fn bad(&mut self, _: &str, _: String) {}
    fn count(&mut self, _: &str) {}
    fn judging(&self) -> bool {
        false
    }
}
struct Judge<'a> {
    o: &'a mut Out,
    strict: bool,
}
impl Sink for Judge<'_> {
    fn bad(&mut self, class: &str, detail: String) {
        viol(self.o, class, detail);
    }
    fn count(&mut self, k: &str) {
        self.o.count(k, 1);
    }
    fn judging(&self) -> bool {
        true
    }
}

const KEYS: &[&str] = &["Exif.Image.Make", "Exif.Image.Model", "Exif.Image.Orientation", "Exif.Image.Software", "Exif.Image.Nothing", "", "Exif.Photo.ISOSpeedRatings", "Exif.Image.XResolution", "x\u{e9}"];

/// Play the C calls of a history. Returns a digest of the results.
pub fn play(s: &Scen, files: &[Loaded], sink: &mut dyn Sink) -> u64 {
    play_with(s, files, sink, None)
}

fn play_with(s: &Scen, files: &[Loaded], sink: &mut dyn Sink, refs: Option<&[Option<RawFileHandle>]>) -> u64 {
    let mut slots: BTreeMap<usize, Obj> = BTreeMap::new();
    let mut dig = 3u64;
    let mut listing: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    for (i, op) in s.ops.iter().enumerate() {
        clock::set_budget(step_budget(files));
        match op {
            Op::Faults(a, b) => {
                s.set_faults(files, *a, *b);
                continue;
            }
            Op::Heal => {
                disk::clear_faults();
                continue;
            }
            _ => {}
        }
        let Op::C(name, sl, num) = op else { continue };
        let (sl0, sl1) = (sl.first().copied().unwrap_or(0), sl.get(1).copied().unwrap_or(0));
        let nm = |k: usize| num.get(k).copied().unwrap_or(0);
        crate::worker::set_op_str(name);
        // the object created into a slot replaces (releases) what was there
        let mut made: Option<Option<(K, P, usize)>> = None;
        let src = slots.get(&sl1).filter(|x| x.k == K::File).map(|x| (x.p, x.file));
        let (sp, sf) = src.unwrap_or((std::ptr::null_mut(), usize::MAX));
        let rf = refs.and_then(|r| r.get(sf)).and_then(|r| r.as_ref());
        let mut e = STALE;
        let ep: *mut u32 = if nm(3) == 1 { std::ptr::null_mut() } else { &mut e };
        let code = |e: u32, p: P, sink: &mut dyn Sink, want: Option<u32>| {
            if nm(3) == 1 {
                return;
            }
            if sp.is_null() {
                // nothing was asked of a file
                return;
            }
            if p.is_null() == (e == NONE) || (!p.is_null() && e != NONE) {
                sink.bad(&format!("code:{name}"), format!("op {i} {name} returned {} and the error code {e:#x}", if p.is_null() { "nothing" } else { "an object" }));
            }
            if let Some(w) = want {
                if w != e {
                    sink.bad(&format!("code:{name}"), format!("op {i} {name} reported code {e}, expected {w}"));
                }
            }
        };
        match name.as_str() {
            "new" | "mem" => {
                let f = &files[nm(0) as usize];
                let t = nm(1) as u32;
                let path = cpath(&f.name);
                let p = lib(|| unsafe {
                    if name == "new" {
                        or_rawfile_new(path.as_ptr(), t)
                    } else {
                        or_rawfile_new_from_memory(f.bytes.as_ptr(), f.bytes.len() as u32, t)
                    }
                });
                made = Some(if p.is_null() { None } else { Some((K::File, p, nm(0) as usize)) });
            }
            "missing" => {
                let path = cpath(["nothere.dng", "dir/none.cr2", "", "x.nef"][nm(0) as usize % 4]);
                let p = lib(|| unsafe { or_rawfile_new(path.as_ptr(), nm(1) as u32) });
                if !p.is_null() {
                    sink.bad("open:missing", format!("op {i}: a missing file was opened"));
                    lib(|| unsafe { or_rawfile_release(p) });
                }
                let mut t: P = 0x10 as P;
                let r = lib(|| unsafe { or_get_extract_thumbnail(path.as_ptr(), 160, &mut t) });
                let mut d: P = 0x10 as P;
                let q = lib(|| unsafe { or_get_extract_rawdata(path.as_ptr(), 0, &mut d) });
                if r == NONE || q == NONE {
                    sink.bad("extract:missing", format!("op {i}: extraction from a missing file returned codes {r} and {q}"));
                }
                if t != 0x10 as P || d != 0x10 as P {
                    sink.bad("extract:written", format!("op {i}: a failed extraction changed the caller's pointer"));
                }
                sink.count("C: missing file");
            }
            "thumb" => {
                let size = nm(0) as u32;
                let p = lib(|| unsafe { or_rawfile_get_thumbnail(sp, size, ep) });
                let want = rf.and_then(|h| guard(|| h.thumbnail(size).map(|_| NONE).unwrap_or_else(|e| code_of(&e))).ok());
                code(e, p, sink, want);
                made = Some(if p.is_null() { None } else { Some((K::Thumb, p, sf)) });
            }
            "raw" => {
                let p = lib(|| unsafe { or_rawfile_get_rawdata(sp, nm(0) as u32, ep) });
                let want = rf.and_then(|h| guard(|| h.raw_data(nm(0) == 1).map(|_| NONE).unwrap_or_else(|e| code_of(&e))).ok());
                code(e, p, sink, want);
                made = Some(if p.is_null() { None } else { Some((K::Raw, p, sf)) });
            }
            "render" => {
                let opt = nm(0) as u32;
                let p = lib(|| unsafe { or_rawfile_get_rendered_image(sp, opt, ep) });
                let want = rf.and_then(|h| guard(|| h.rendered_image(RenderingOptions::from(opt)).map(|_| NONE).unwrap_or_else(|e| code_of(&e))).ok());
                code(e, p, sink, want);
                if sp.is_null() && nm(3) != 1 && e != NOT_AREF {
                    sink.bad("code:render", format!("op {i}: rendering no file reported {e:#x}"));
                }
                made = Some(if p.is_null() { None } else { Some((K::Bitmap, p, sf)) });
            }
            "meta" => {
                let k = KEYS[nm(0) as usize % KEYS.len()];
                let ck = CString::new(k).unwrap();
                let p = lib(|| unsafe { or_rawfile_get_metavalue(sp, ck.as_ptr()) });
                if let Some(h) = rf {
                    if let Ok(w) = guard(|| h.metadata_value(k).map(|v| rust_meta_text(&v))) {
                        let g = if p.is_null() { None } else { Some(meta_text(p)) };
                        if g != w {
                            sink.bad("metavalue", format!("op {i}: {k} is {g:?}, expected {w:?}"));
                        }
                    }
                }
                made = Some(if p.is_null() { None } else { Some((K::Meta, p, sf)) });
            }
            "iter" => {
                let p = lib(|| unsafe { or_rawfile_get_metadata_iterator(sp) });
                if p.is_null() != sp.is_null() {
                    sink.bad("iterator:null", format!("op {i}: no iterator for a file"));
                }
                made = Some(if p.is_null() { None } else { Some((K::Iter, p, sf)) });
            }
            "ethumb" | "eraw" => {
                let f = nm(1) as usize % files.len();
                let path = cpath(&files[f].name);
                let mut p: P = 0x10 as P;
                let null = nm(2) == 1;
                let pp: *mut P = if null { std::ptr::null_mut() } else { &mut p };
                let r = lib(|| unsafe {
                    if name == "ethumb" {
                        or_get_extract_thumbnail(path.as_ptr(), nm(0) as u32, pp)
                    } else {
                        or_get_extract_rawdata(path.as_ptr(), nm(0) as u32 & 1, pp)
                    }
                });
                if null && r != NOT_AREF {
                    sink.bad("extract:null", format!("op {i}: extraction to nowhere reported {r}"));
                }
                if r != NONE && p != 0x10 as P {
                    sink.bad("extract:written", format!("op {i}: a failed extraction changed the caller's pointer"));
                }
                if r == NONE && (p.is_null() || p == 0x10 as P) {
                    sink.bad("extract:nothing", format!("op {i}: a successful extraction delivered nothing"));
                }
                made = Some(if r == NONE { Some((if name == "ethumb" { K::Thumb } else { K::Raw }, p, f)) } else { None });
            }
            "blank" => {
                let (k, p) = lib(|| unsafe { if nm(0) == 0 { (K::Thumb, or_thumbnail_new()) } else { (K::Raw, or_rawdata_new()) } });
                made = Some(Some((k, p, usize::MAX)));
            }
            "next" => {
                if let Some(x) = slots.get_mut(&sl0).filter(|x| x.k == K::Iter) {
                    for _ in 0..nm(0).max(1) {
                        let r = lib(|| unsafe { or_metadata_iterator_next(x.p) });
                        let e = lib(|| unsafe { or_metadata_iterator_get_entry(x.p) });
                        if (r != 0) == e.is_null() {
                            sink.bad("iterator:entry", format!("op {i}: next returned {r} and the entry is {}null", if e.is_null() { "" } else { "not " }));
                        }
                        if r != 0 && x.done {
                            sink.bad("iterator:resumed", format!("op {i}: the iterator continued after its end"));
                        }
                        if r == 0 {
                            x.done = true;
                            break;
                        }
                        x.at += 1;
                        if let Some(h) = refs.and_then(|r| r.get(x.file)).and_then(|r| r.as_ref()) {
                            let l = listing.entry(x.file).or_insert_with(|| guard(|| h.metadata().map(|it| it.map(|(k, v, t)| format!("{:?} {t} {}", Some(cut(&k)), rust_meta_text(&v))).collect::<Vec<_>>())).ok().flatten().unwrap_or_default());
                            let g = lib(|| unsafe { format!("{:?} {} {}", cstr(or_metadata_get_key(e)), or_metadata_get_type(e), meta_text(or_metadata_get_value(e))) });
                            let w = l.get(x.at - 1).cloned().unwrap_or("the end".into());
                            if g != w {
                                sink.bad("iterator:value", format!("op {i}: entry {} is {}, expected {}", x.at, clip(&g), clip(&w)));
                            }
                        }
                    }
                    if x.done {
                        if let Some(l) = listing.get(&x.file) {
                            if l.len() != x.at {
                                sink.bad("iterator:end", format!("op {i}: the iterator ended after {} of {} entries", x.at, l.len()));
                            }
                        }
                    }
                    x.text = x.text();
                } else {
                    let r = lib(|| unsafe { or_metadata_iterator_next(std::ptr::null_mut()) });
                    if r != 0 {
                        sink.bad("null:next", format!("op {i}: next of no iterator returned {r}"));
                    }
                }
            }
            "sizes" => {
                if let Some(x) = slots.get_mut(&sl1).filter(|x| x.k == K::File) {
                    let mut n = 0usize;
                    let null = nm(3) == 1;
                    let p = lib(|| unsafe { or_rawfile_get_thumbnail_sizes(x.p, if null { std::ptr::null_mut() } else { &mut n }) });
                    if !p.is_null() && !null {
                        let v: Vec<u32> = (0..n).map(|i| unsafe { *p.add(i) }).collect();
                        dig = mix(dig ^ hash(format!("{v:?}").as_bytes()));
                        if let Some(h) = rf {
                            if let Ok(Some(w)) = guard(|| h.thumbnail_sizes().map(|v| v.to_vec())) {
                                if w != v {
                                    sink.bad("sizes", format!("op {i}: sizes {v:?}, expected {w:?}"));
                                }
                            }
                        }
                        x.lent_sizes = Some((p, v));
                    }
                }
            }
            "ifd" => {
                if let Some(x) = slots.get_mut(&sl1).filter(|x| x.k == K::File) {
                    let t = [0u32, 1, 2, 3, 4, 5, 6, 10000][nm(0) as usize % 8];
                    let d = lib(|| unsafe { or_rawfile_get_ifd(x.p, t) });
                    let text = dir_text(d);
                    dig = mix(dig ^ hash(text.as_bytes()));
                    if let (Some(h), true) = (rf, t < 7) {
                        if let Ok(w) = guard(|| rust_dir_text!(h.ifd(IFDS[t as usize]))) {
                            if w != text {
                                sink.bad("ifd", format!("op {i}: {}, expected {}", clip(&text), clip(&w)));
                            }
                        }
                    }
                    if !d.is_null() {
                        for t in [0xffffu32, 0x12345, 0xffffffff, 0xc65a] {
                            if lib(|| unsafe { or_ifd_get_tag_name(d, t) }).is_null() {
                                sink.bad("tag_name", format!("op {i}: the name of tag {t:#x} is null"));
                            }
                        }
                        x.lent_dirs.push((d, text));
                    }
                }
            }
            "matrix" => {
                let need = rf.and_then(|h| guard(|| h.colour_matrix(nm(0) as usize).map(|m| m.1)).ok());
                matrix(sp, nm(0) as usize, nm(1) as usize, nm(3) == 1, need, i, sink);
            }
            "facts" => {
                let t = lib(|| unsafe {
                    format!(
                        "{} {} {} {} {} {} {}",
                        or_rawfile_get_type(sp),
                        or_rawfile_get_typeid(sp),
                        or_rawfile_get_vendorid(sp),
                        or_rawfile_get_orientation(sp),
                        or_rawfile_get_calibration_illuminant1(sp),
                        or_rawfile_get_calibration_illuminant2(sp),
                        or_rawfile_get_colour_matrix_origin(sp)
                    )
                });
                dig = mix(dig ^ hash(t.as_bytes()));
                if sp.is_null() && t != "0 0 0 0 0 0 0" {
                    sink.bad("null:facts", format!("op {i}: facts of no file are {t}"));
                }
            }
            "nulls" => {
                nulls(i, sink);
                sink.count("C: null arguments");
            }
            "partial" => {
                if let Some(x) = slots.get(&sl0) {
                    partial(x, nm(0) as u32, i, sink);
                }
            }
            "static" => statics(i, sink),
            "level" => lib(|| unsafe { or_debug_set_level(nm(0) as u32 % 5) }),
            "free" => {
                if let Some(x) = slots.remove(&sl0) {
                    let r = x.release();
                    if r != NONE {
                        sink.bad("release", format!("op {i}: releasing a {:?} reported {r}", x.k));
                    }
                    sink.count(&format!("C: released {:?}", x.k));
                }
            }
            n => panic!("unknown C call {n}"),
        }
        if let Some(m) = made {
            sink.count(&format!("C: {name} {}", if m.is_some() { "delivered" } else { "refused" }));
            if let Some((k, p, file)) = m {
                let mut x = Obj { k, p, file, text: String::new(), lent_sizes: None, lent_dirs: vec![], at: 0, done: false };
                x.text = x.text();
                dig = mix(dig ^ hash(x.text.as_bytes()));
                if let Some(old) = slots.insert(sl0, x) {
                    old.release();
                    sink.count(&format!("C: released {:?}", old.k));
                }
            } else {
                dig = mix(dig ^ 1);
            }
        }
        // everything still held must be as it was
        if sink.judging() {
            for (k, x) in &slots {
                let t = x.text();
                if t != x.text {
                    sink.bad(&format!("changed:{:?}", x.k), format!("op {i} {name}: the {:?} in slot {k} changed from {} to {}", x.k, clip(&x.text), clip(&t)));
                }
                if let Some((p, v)) = &x.lent_sizes {
                    if v.iter().enumerate().any(|(i, w)| unsafe { *p.add(i) } != *w) {
                        sink.bad("changed:sizes", format!("op {i} {name}: the thumbnail sizes of slot {k} changed"));
                    }
                }
                for (d, t) in &x.lent_dirs {
                    if dir_text(*d) != *t {
                        sink.bad("changed:dir", format!("op {i} {name}: a directory of slot {k} changed"));
                    }
                }
            }
        }
        clock::clear_budget();
        crate::worker::end_op();
    }
    crate::worker::set_op_str("release");
    for (_, x) in slots {
        x.release();
    }
    crate::worker::end_op();
    dig
}

fn matrix(sp: P, index: usize, size: usize, null: bool, need: Option<Result<Vec<f64>, libopenraw::Error>>, i: usize, sink: &mut dyn Sink) {
    const CANARY: f64 = 1.2345e67;
    let mut buf = vec![CANARY; size + 8];
    let mut n = size as u32;
    let np: *mut u32 = if null { std::ptr::null_mut() } else { &mut n };
    let r = lib(|| unsafe { if index == 2 { or_rawfile_get_colourmatrix2(sp, buf.as_mut_ptr(), np) } else { or_rawfile_get_colourmatrix1(sp, buf.as_mut_ptr(), np) } });
    sink.count(&format!("C: matrix code {r}"));
    if sp.is_null() {
        if r != NOT_AREF {
            sink.bad("matrix:null", format!("op {i}: the matrix of no file reported {r}"));
        }
    } else if null {
        if r != INVALID_PARAM {
            sink.bad("matrix:null size", format!("op {i}: a null size reported {r}"));
        }
    } else if r == NONE && (n as usize > size || buf[n as usize..].iter().any(|v| *v != CANARY)) {
        sink.bad("matrix:overrun", format!("op {i}: {n} values reported for a buffer of {size}, or more written"));
    }
    if r != NONE && buf.iter().any(|v| *v != CANARY) {
        sink.bad("matrix:written", format!("op {i}: a failed call wrote to the buffer (code {r})"));
    }
    if let (Some(w), false, false) = (need, null, sp.is_null()) {
        match w {
            Ok(m) => {
                if size < m.len() {
                    if r != BUF_TOO_SMALL {
                        sink.bad("matrix:small", format!("op {i}: a buffer of {size} for {} values reported {r}", m.len()));
                    } else if n as usize != m.len() {
                        sink.bad("matrix:need", format!("op {i}: a buffer too small, and the size needed reported as {n} instead of {}", m.len()));
                    }
                } else if r != NONE || n as usize != m.len() || m.iter().zip(&buf).any(|(a, b)| a.to_bits() != b.to_bits()) {
                    sink.bad("matrix:value", format!("op {i}: a buffer of {size} got code {r} and {n} values {:?} for {m:?}", &buf[..n.min(12) as usize]));
                }
            }
            Err(_) => {
                if r == NONE {
                    sink.bad("matrix:invented", format!("op {i}: no matrix, yet success"));
                }
            }
        }
    }
}

/// Calls with out parameters partly null, and indices out of range.
fn partial(x: &Obj, index: u32, i: usize, sink: &mut dyn Sink) {
    macro_rules! null {
        () => {
            std::ptr::null_mut()
        };
    }
    lib(|| unsafe {
        match x.k {
            K::Raw => {
                let mut a = STALE;
                or_rawdata_dimensions(x.p, null!(), &mut a);
                or_rawdata_dimensions(x.p, &mut a, null!());
                or_rawdata_dimensions(x.p, null!(), null!());
                let mut w = [0xa5a5u16; 6];
                if or_rawdata_levels(x.p, null!(), w.as_mut_ptr()) != NONE || w[4..] != [0xa5a5; 2] {
                    sink.bad("levels", format!("op {i}: levels failed or wrote more than four values"));
                }
                or_rawdata_levels(x.p, w.as_mut_ptr(), null!());
                or_rawdata_levels(x.p, null!(), null!());
                let mut v = [7.5f64; 6];
                let r = or_rawdata_as_shot_neutral(x.p, v.as_mut_ptr());
                if v[4..] != [7.5; 2] || (r != NONE && v != [7.5; 6]) {
                    sink.bad("neutral", format!("op {i}: code {r}, buffer {v:?}"));
                }
                let mut x1 = 7.5;
                let r = or_rawdata_as_shot_white_xy(x.p, &mut x1, null!());
                if r == NONE || x1 != 7.5 {
                    sink.bad("white_xy", format!("op {i}: code {r} with a null argument"));
                }
                let mut b = [STALE; 4];
                let r1 = or_rawdata_get_active_area(x.p, &mut b[0], null!(), null!(), &mut b[3]);
                let r2 = or_rawdata_get_user_crop(x.p, null!(), &mut b[1], null!(), null!());
                let mut c = STALE;
                let r3 = or_rawdata_get_user_aspect_ratio(x.p, null!(), &mut c);
                for (r, v, what) in [(r1, b[0], "active area"), (r2, b[1], "crop"), (r3, c, "aspect ratio")] {
                    if (r == NONE) != (v != STALE) {
                        sink.bad("area", format!("op {i}: {what} reported {r} and {}", if v == STALE { "wrote nothing" } else { "wrote" }));
                    }
                }
                let mut k = STALE;
                let m = or_rawdata_get_colour_matrix(x.p, index, &mut k);
                if (index == 0 || index > 2) && !m.is_null() {
                    sink.bad("matrix index", format!("op {i}: a matrix for index {index}"));
                }
                or_rawdata_get_colour_matrix(x.p, index, null!());
                or_mosaicinfo_get_pattern(or_rawdata_get_mosaicinfo(x.p), null!());
            }
            K::Thumb => {
                let mut a = STALE;
                or_thumbnail_dimensions(x.p, null!(), &mut a);
                or_thumbnail_dimensions(x.p, &mut a, null!());
            }
            K::Bitmap => {
                let mut a = STALE;
                or_bitmapdata_dimensions(x.p, null!(), &mut a);
                or_bitmapdata_dimensions(x.p, &mut a, null!());
            }
            K::File => {
                or_rawfile_get_thumbnail_sizes(x.p, null!());
            }
            _ => {}
        }
    });
}

/// Every call on null: the documented answer.
fn nulls(i: usize, sink: &mut dyn Sink) {
    let n: P = std::ptr::null_mut();
    let c: CP = std::ptr::null();
    let mut bad = vec![];
    macro_rules! want {
        ($call:expr, $v:expr) => {
            if lib(|| unsafe { $call }) != $v {
                bad.push(stringify!($call));
            }
        };
    }
    let key = CString::new("Exif.Image.Make").unwrap();
    let mut v = [7.5f64; 4];
    let mut k = 4u32;
    let mut u = [STALE; 4];
    let mut w = [0xa5a5u16; 4];
    want!(or_rawfile_release(n), NOT_AREF);
    want!(or_rawfile_get_type(n), 0);
    want!(or_rawfile_get_typeid(n), 0);
    want!(or_rawfile_get_vendorid(n), 0);
    want!(or_rawfile_get_orientation(n), 0);
    want!(or_rawfile_get_rawdata(n, 0, std::ptr::null_mut()).is_null(), true);
    want!(or_rawfile_get_thumbnail(n, 160, std::ptr::null_mut()).is_null(), true);
    want!(or_rawfile_get_thumbnail_sizes(n, std::ptr::null_mut()).is_null(), true);
    want!(or_rawfile_get_metavalue(n, key.as_ptr()).is_null(), true);
    want!(or_rawfile_get_rendered_image(n, 0, std::ptr::null_mut()).is_null(), true);
    want!(or_rawfile_get_ifd(n, 1).is_null(), true);
    want!(or_rawfile_get_calibration_illuminant1(n), 0);
    want!(or_rawfile_get_calibration_illuminant2(n), 0);
    want!(or_rawfile_get_colourmatrix1(n, v.as_mut_ptr(), &mut k), NOT_AREF);
    want!(or_rawfile_get_colourmatrix2(n, v.as_mut_ptr(), &mut k), NOT_AREF);
    want!(or_rawfile_get_colour_matrix_origin(n), 0);
    want!(or_rawfile_get_metadata_iterator(n).is_null(), true);
    want!(or_metadata_iterator_free(n), ());
    want!(or_metadata_iterator_next(n), 0);
    want!(or_metadata_iterator_get_entry(n).is_null(), true);
    want!(or_metadata_iterator_get_dir(n).is_null(), true);
    want!(or_metadata_get_key(c).is_null(), true);
    want!(or_metadata_get_value(c).is_null(), true);
    want!(or_metadata_get_type(c), 0);
    want!(or_metavalue_release(n), ());
    want!(or_metavalue_get_string(c).is_null(), true);
    want!(or_metavalue_get_as_string(c, true).is_null(), true);
    want!(or_metavalue_get_count(c), 0);
    want!(or_ifd_count_tags(c), -1);
    want!(or_ifd_get_makernote_id(c).is_null(), true);
    want!(or_ifd_get_type(c), 10000);
    want!(or_ifd_get_tag_name(c, 0x100).is_null(), true);
    want!(or_rawdata_release(n), NOT_AREF);
    want!(or_rawdata_data_size(n), 0);
    want!(or_rawdata_data(n).is_null(), true);
    want!(or_rawdata_format(n), 100);
    want!(or_rawdata_levels(n, w.as_mut_ptr(), w.as_mut_ptr()), NOT_AREF);
    want!(or_rawdata_as_shot_neutral(n, v.as_mut_ptr()), NOT_AREF);
    want!(or_rawdata_as_shot_white_xy(n, &mut v[0], &mut v[1]), NOT_AREF);
    want!(or_rawdata_dimensions(n, &mut u[0], &mut u[1]), ());
    want!(or_rawdata_get_cfa_pattern_type(n), 0);
    want!(or_rawdata_get_compression(n), 0);
    want!(or_rawdata_bpc(n), 0);
    want!(or_rawdata_get_colour_matrix(n, 1, &mut k).is_null(), true);
    want!(or_rawdata_get_active_area(n, &mut u[0], &mut u[1], &mut u[2], &mut u[3]), NOT_AREF);
    want!(or_rawdata_get_user_crop(n, &mut u[0], &mut u[1], &mut u[2], &mut u[3]), NOT_AREF);
    want!(or_rawdata_get_user_aspect_ratio(n, &mut u[0], &mut u[1]), NOT_AREF);
    want!(or_rawdata_get_mosaicinfo(n).is_null(), true);
    want!(or_thumbnail_release(n), NOT_AREF);
    want!(or_thumbnail_data_size(n), 0);
    want!(or_thumbnail_data(n).is_null(), true);
    want!(or_thumbnail_format(n), 100);
    want!(or_thumbnail_dimensions(n, &mut u[0], &mut u[1]), ());
    want!(or_bitmapdata_release(n), NOT_AREF);
    want!(or_bitmapdata_data_size(n), 0);
    want!(or_bitmapdata_data(n).is_null(), true);
    want!(or_bitmapdata_format(n), 100);
    want!(or_bitmapdata_dimensions(n, &mut u[0], &mut u[1]), ());
    want!(or_mosaicinfo_get_type(c), 0);
    want!(or_mosaicinfo_get_pattern(c, std::ptr::null_mut()).is_null(), true);
    if !bad.is_empty() {
        sink.bad("null:answer", format!("op {i}: {} on null did not give the documented answer", bad.join(", ")));
    }
    if v != [7.5; 4] || k != 4 || u != [STALE; 4] || w != [0xa5a5; 4] {
        sink.bad("null:written", format!("op {i}: a call on null wrote to the caller's variables: {v:?} {k} {u:?} {w:?}"));
    }
}

fn statics(i: usize, sink: &mut dyn Sink) {
    let list = |p: *const *const c_char| {
        let mut v = vec![];
        if p.is_null() {
            return v;
        }
        for k in 0..1000 {
            let s = unsafe { *p.add(k) };
            match cstr(s) {
                Some(s) => v.push(s),
                None => return v,
            }
        }
        v.push("NOT TERMINATED".into());
        v
    };
    let (a, b) = lib(|| unsafe { (or_get_file_extensions(), or_get_mime_types()) });
    let (e, m) = (list(a), list(b));
    let re: Vec<String> = libopenraw::extensions().iter().map(|s| s.to_string()).collect();
    let rm: Vec<String> = libopenraw::mime_types().iter().map(|s| s.to_string()).collect();
    if e != re || m != rm {
        sink.bad("static lists", format!("op {i}: extensions {e:?} and media types {m:?}, expected {re:?} and {rm:?}"));
    }
    for s in m.iter().chain([&"image/none".to_string(), &String::new(), &"x\u{ff}".to_string()]) {
        let c = CString::new(s.as_str()).unwrap();
        let t = lib(|| unsafe { or_get_type_for_mime_type(c.as_ptr()) });
        let w = libopenraw::type_for_mime_type(s).map(|t| t as u32).unwrap_or(0);
        if t != w {
            sink.bad("static type", format!("op {i}: media type {s} is type {t}, expected {w}"));
        }
    }
}

// --------------------------------------------------------------- generation

/// A history of C calls over the files of the scenario; `nfile` of them at once.
pub fn gen_history(s: &mut Scen, r: &mut Rng, _n: usize) {
    let n = r.range(4, 20) as usize;
    history(s, r, n, false);
}

fn history(s: &mut Scen, r: &mut Rng, n: usize, odd: bool) {
    let ys: Vec<_> = s.files.iter().map(|f| syn(&FileSpec { muts: vec![], ..f.clone() })).collect();
    let mut files: Vec<usize> = vec![];
    let mut objs: Vec<usize> = vec![];
    let mut next = 0;
    let mut fresh = |r: &mut Rng| {
        if r.chance(1, 8) && next > 0 {
            // reuse: what is there is released
            r.us(next)
        } else {
            next += 1;
            next - 1
        }
    };
    for k in 0..n {
        let c = |name: &str, sl: Vec<usize>, num: Vec<i64>| Op::C(name.into(), sl, num);
        let noerr = (r.chance(1, 6)) as i64;
        let src = if files.is_empty() || (odd && r.chance(1, 10)) { 999 } else { *r.pick(&files) };
        let x = r.below(100);
        let op = if k == 0 || x < 10 {
            let f = r.us(ys.len());
            let d = fresh(r);
            let right = hint_for(&ys[f]) as i64;
            let hint = if odd && r.chance(1, 8) { *r.pick(&[1i64, 2, 3, 4, 5, 6, 7, 12, 13, 14, 100, 10]) } else if r.chance(1, 3) { 0 } else { right };
            files.push(d);
            c(if r.chance(1, 3) { "mem" } else { "new" }, vec![d], vec![f as i64, hint])
        } else if x < 22 {
            let sizes: Vec<u32> = ys.iter().flat_map(|y| y.exp.thumbs.iter().flatten().map(|t| t.w.max(t.h))).collect();
            let mut size = if sizes.is_empty() || r.chance(1, 2) { *r.pick(&[0u32, 1, 100, 160, 1000, 5000, u32::MAX]) } else { *r.pick(&sizes) };
            if r.chance(1, 3) {
                size = size.wrapping_add(1);
            }
            let d = fresh(r);
            objs.push(d);
            c("thumb", vec![d, src], vec![size as i64, 0, 0, noerr])
        } else if x < 34 {
            let d = fresh(r);
            objs.push(d);
            c("raw", vec![d, src], vec![*r.pick(&[0i64, 0, 1, 1, 2, 77]), 0, 0, noerr])
        } else if x < 40 {
            let d = fresh(r);
            objs.push(d);
            c("render", vec![d, src], vec![*r.pick(&[0i64, 3, 0x13, 0x23, 0x33, 0x10, 0x20, 0x31, 0xffff]), 0, 0, noerr])
        } else if x < 48 {
            let d = fresh(r);
            objs.push(d);
            c("meta", vec![d, src], vec![r.below(KEYS.len() as u64) as i64])
        } else if x < 54 {
            let d = fresh(r);
            objs.push(d);
            c("iter", vec![d, src], vec![])
        } else if x < 64 {
            let d = if objs.is_empty() { 0 } else { *r.pick(&objs) };
            c("next", vec![d], vec![*r.pick(&[1i64, 1, 2, 5, 1000])])
        } else if x < 68 {
            c("sizes", vec![0, src], vec![0, 0, 0, (odd && r.chance(1, 4)) as i64])
        } else if x < 73 {
            c("ifd", vec![0, src], vec![r.below(8) as i64])
        } else if x < 78 {
            c("matrix", vec![0, src], vec![r.range(1, 2) as i64, *r.pick(&[9i64, 9, 0, 3, 8, 9, 10, 11, 12, 15, 16, 20, 64]), 0, (odd && r.chance(1, 6)) as i64])
        } else if x < 81 {
            c("facts", vec![0, src], vec![])
        } else if x < 84 {
            let d = fresh(r);
            objs.push(d);
            c(if r.chance(1, 2) { "ethumb" } else { "eraw" }, vec![d], vec![*r.pick(&[1i64, 160, 0, 320]), r.below(8) as i64, (odd && r.chance(1, 4)) as i64])
        } else if x < 85 {
            let d = fresh(r);
            objs.push(d);
            c("blank", vec![d], vec![r.below(2) as i64])
        } else if odd && x < 89 {
            c(*r.pick(&["nulls", "missing", "static", "level"]), vec![], vec![r.below(8) as i64, *r.pick(&[0i64, 6, 1, 13])])
        } else if odd && x < 93 {
            let all: Vec<usize> = objs.iter().chain(&files).copied().collect();
            c("partial", vec![*r.pick(&all)], vec![*r.pick(&[0i64, 1, 2, 3, 4, 1000, 0xffffffff])])
        } else {
            let all: Vec<usize> = objs.iter().chain(&files).copied().collect();
            c("free", vec![*r.pick(&all)], vec![])
        };
        s.ops.push(op);
    }
}

pub fn gen_c09(s: &mut Scen, r: &mut Rng) {
    let n = *r.pick(&[1usize, 1, 2, 2, 3]);
    for _ in 0..n {
        let mut fs = a_file(r);
        if r.chance(1, 6) {
            let y = syn(&fs);
            fs.muts = damage(r, &y, 1);
        }
        s.files.push(fs);
    }
    let k = r.range(10, 60) as usize;
    history(s, r, k, false);
}

/// Handles of the Rust interface to compare with, made before the history.
fn references(s: &Scen, files: &[Loaded]) -> Vec<Option<RawFileHandle>> {
    files
        .iter()
        .enumerate()
        .map(|(k, f)| {
            // every opening in the history must mean the same
            let mut hints: Vec<u32> = s.ops.iter().filter_map(|op| if let Op::C(n, _, v) = op { if (n == "new" || n == "mem") && v[0] as usize == k { Some(v[1] as u32) } else { None } } else { None }).collect();
            hints.dedup();
            let y = f.syn.as_ref()?;
            let right = hint_for(&y);
            // a hint of nothing means the file's type when its content tells
            let name_tells = !["crw", "mrw", "MRW"].contains(&y.ext);
            if hints.iter().any(|h| *h != right && !(*h == 0 && y.exp.content && name_tells && !f.damaged)) {
                return None;
            }
            open_as(f, &f.name, How::Path, right).ok()
        })
        .collect()
}

pub fn run_c09(s: &Scen, files: &[Loaded], o: &mut Out) {
    let fds = disk::open_fds();
    let refs = references(s, files);
    let n = s.ops.len();
    o.digest = play_with(s, files, &mut Judge { o, strict: true }, Some(&refs));
    for h in refs.into_iter().flatten() {
        close(h);
    }
    o.nontrivial = n > 3;
    if o.viol.is_some() {
        return;
    }
    // released once: everything is back, however often
    let mut seen = vec![];
    for _ in 0..3 {
        let d = play(s, files, &mut Silent);
        seen.push((alloc::live(), d));
        if disk::open_fds() != fds {
            return viol(o, "descriptors", format!("{} descriptors open after everything was released, {fds} before", disk::open_fds()));
        }
    }
    let (a, b, c) = (seen[0].0, seen[1].0, seen[2].0);
    if c.0 > b.0 && b.0 > a.0 {
        viol(o, "memory", format!("{} more allocations ({} bytes) stay with every repetition of the calls", c.0 - b.0, c.1 - b.1));
    }
}

pub fn gen_c10(s: &mut Scen, r: &mut Rng) {
    let n = *r.pick(&[1usize, 1, 1, 2]);
    let mode = r.us(3);
    for i in 0..n {
        let mut fs = a_file(r);
        let y = syn(&fs);
        if mode == 1 {
            let k = r.range(1, 4) as usize;
            fs.muts = if r.chance(1, 5) { vec![Mut::Trunc(cut_at(r, &y))] } else { damage(r, &y, k) };
        }
        if mode == 2 {
            crate::props::error_faults(r, s, i, &y, y.bytes.len());
        }
        s.files.push(fs);
    }
    let k = r.range(8, 40) as usize;
    if mode == 2 {
        s.ops.push(Op::Faults(0, 100));
    }
    history(s, r, k, true);
}
fn cut_at(r: &mut Rng, y: &crate::synth::SynFile) -> usize {
    crate::scen::cut(r, y)
}

pub fn run_c10(s: &Scen, files: &[Loaded], o: &mut Out) {
    let quiet = s.faults.is_empty();
    let refs = if quiet { references(s, files) } else { files.iter().map(|_| None).collect() };
    o.digest = play_with(s, files, &mut Judge { o, strict: quiet }, Some(&refs));
    disk::clear_faults();
    for h in refs.into_iter().flatten() {
        close(h);
    }
    note_counts(o);
    o.nontrivial = true;
}
