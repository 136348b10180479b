//! Parts shared by the formats built on a chain of TIFF directories.
use super::mats::Mat;
use super::tb::*;
use super::*;

pub struct Note {
    pub head: Vec<u8>,
    /// the maker note's offsets count from here in it; None: from the start of the file
    pub base: Option<usize>,
    pub dir: Ifd,
    /// the library knows the header, so the entries are to be found
    pub known: bool,
    /// directories of its own: (entry, directory, whether the entry is `Undefined`)
    pub subs: Vec<(u16, Ifd, bool)>,
}

pub struct Parts {
    pub fmt: &'static str,
    pub ext: &'static str,
    pub head: Vec<u8>,
    /// where the pointer to the first directory is in the head
    pub ptr: usize,
    pub ifd0: Ifd,
    pub exif: Option<Ifd>,
    pub note: Option<Note>,
    pub gps: bool,
    pub subs: Vec<Ifd>,
    pub chain: Vec<(&'static str, Ifd)>,
    pub ns0: &'static str,
    pub namer0: Namer,
    /// the maker note must lie within that many bytes behind the head (0: anywhere)
    pub last: Option<Cref>,
}

impl Parts {
    pub fn new(fmt: &'static str, ext: &'static str, be: bool) -> Parts {
        Parts {
            fmt,
            ext,
            head: tiff_head(be),
            ptr: 4,
            ifd0: Ifd::new(),
            exif: None,
            note: None,
            gps: false,
            subs: vec![],
            chain: vec![],
            ns0: "Exif.Image",
            namer0: tag_name,
            last: None,
        }
    }
}

/// Put the parts of a file together.
pub fn assemble(mut cx: Cx, mut p: Parts) -> SynFile {
    let be = cx.be;
    let head = cx.fb.head(p.head.clone());
    match p.note.take() {
        Some(n) => {
            let v = dng::maker_note_subs(&mut cx, &n.head, n.base, n.dir.clone(), &n.subs);
            p.exif.get_or_insert_with(Ifd::new).add(0x927c, v);
            if n.known {
                expect_dir(&mut cx.e, 2, &n.dir);
                cx.e.names.extend(super::mnames::of(p.fmt, &n.head).map(|n| (2, n)));
            } else {
                cx.fb.dirs.pop();
            }
            cx.tag("makernote");
        }
        None => cx.e.no_dirs.push(2),
    }
    match p.exif {
        Some(ex) => {
            expect_dir(&mut cx.e, 1, &ex);
            let (c, _) = cx.fb.ifd(&ex, Base::File);
            p.ifd0.add(0x8769, V::P(vec![c]));
        }
        None => cx.e.no_dirs.push(1),
    }
    if p.gps {
        let g = gps_ifd(&mut cx.rng);
        let (c, _) = cx.fb.ifd(&g, Base::File);
        p.ifd0.add(0x8825, V::P(vec![c]));
    }
    if !p.subs.is_empty() {
        let refs: Vec<Cref> = p.subs.iter().map(|d| cx.fb.ifd(d, Base::File).0).collect();
        p.ifd0.add(0x14a, V::P(refs));
    }
    let mut next = None;
    for (_, d) in p.chain.iter_mut().rev() {
        d.next = next;
        next = Some(cx.fb.ifd(d, Base::File).0);
    }
    p.ifd0.next = next;
    let (c0, _) = cx.fb.ifd(&p.ifd0, Base::File);
    cx.fb.ptr((head.0, p.ptr), c0, Base::File, be);
    let shuffle = cx.rng.chance(2, 3);
    let gap = *cx.rng.pick(&[0usize, 0, 8, 300]);
    let fb = std::mem::replace(&mut cx.fb, Fb::new(be, Rng::new(0)));
    let b = fb.build(head, p.last, shuffle, gap);
    let mut chain: Vec<(&'static str, &Ifd, Namer)> = vec![(p.ns0, &p.ifd0, p.namer0)];
    for (ns, d) in &p.chain {
        chain.push((ns, d, tag_name));
    }
    expect_meta(&mut cx.e, &chain, &b, 0);
    cx.finish(p.fmt, p.ext, b)
}

/// The usual descriptive content of a main directory, Exif and GPS.
pub fn common(cx: &mut Cx, p: &mut Parts) {
    orientation(&mut cx.rng, &mut p.ifd0);
    let n = cx.rng.us(8);
    plain_tags(&mut cx.rng, &mut p.ifd0, n);
    if cx.rng.chance(4, 5) {
        p.exif = Some(photo_ifd(&mut cx.rng));
    }
    p.gps = cx.rng.chance(1, 4);
}

/// Further directories of the chain, holding previews.
pub fn chain(cx: &mut Cx, p: &mut Parts, ns: &'static str, max: usize, thumbs: &mut Vec<ExpThumb>) {
    for _ in 0..cx.rng.us(max + 1) {
        let mut d = Ifd::new();
        preview_ifd(cx, &mut d, thumbs, None);
        let n = cx.rng.us(4);
        plain_tags(&mut cx.rng, &mut d, n);
        p.chain.push((ns, d));
    }
}

/// A JPEG somewhere in the file, with the preview it is. `thumbs` gets it unless one of the dimension is there.
pub fn loose_jpeg(cx: &mut Cx, thumbs: &mut Vec<ExpThumb>, unique: bool) -> (Cref, u32) {
    let (w, h) = jpeg_dims(&mut cx.rng);
    let body = super::body_len(&mut cx.rng, 200);
    let j = enc::jpeg(&mut cx.rng, w, h, body);
    let n = j.len() as u32;
    let c = cx.fb.stream(j.clone());
    let dim = w.max(h);
    let t = ExpThumb { dim, w, h, fmt: "Jpeg", data: j };
    if !unique || !thumbs.iter().any(|t| t.dim == dim) {
        thumbs.push(t);
    } else {
        cx.e.hidden.push(t);
    }
    (c, n)
}

/// The pattern tags of a raw directory.
pub fn cfa(cx: &mut Cx, d: &mut Ifd, x: &mut ExpRaw) {
    let (p, name) = cx.rng.pick(CFA);
    match cx.rng.us(3) {
        0 => {
            d.add(0x828d, V::S(vec![2, 2]));
            d.add(0x828e, if cx.rng.chance(1, 2) { V::B(p.to_vec()) } else { V::U(p.to_vec()) });
            x.attr("mosaic", *name);
        }
        1 => {
            let mut v = vec![2, 0, 2, 0];
            if cx.be {
                v[0] = 2;
                v[2] = 2;
            }
            v.extend_from_slice(p);
            d.add(0xa302, V::U(v));
            x.attr("mosaic", *name);
        }
        _ => {
            x.attrs.remove("mosaic");
        }
    }
}

/// Raw image tags common to the vendors: size, depth, levels by default.
pub fn raw_dims(cx: &mut Cx, d: &mut Ifd, x: &mut ExpRaw, w: usize, h: usize, bits: u16) {
    let dim = |rng: &mut Rng, v: usize| if rng.chance(1, 2) { V::L(vec![v as u32]) } else { V::S(vec![v as u16]) };
    d.add(0x100, dim(&mut cx.rng, w));
    d.add(0x101, dim(&mut cx.rng, h));
    d.add(0x102, V::S(vec![bits]));
    x.w = w as u32;
    x.h = h as u32;
    x.bpc = bits;
    x.stored_dim = Some((w as u32, h as u32));
    let white = if bits >= 16 { 65535u32 } else { (1 << bits) - 1 };
    x.attr("whites", quad(&[white]));
    x.attr("blacks", quad(&[0]));
}

pub fn builtin(t: &[Mat], id: u32) -> Option<&Mat> {
    t.iter().find(|m| m.0 == id)
}

/// What the matrix attributes must say without matrices in the file.
pub fn builtin_matrix(x: &mut ExpRaw, t: &[Mat], id: u32) {
    let s = match builtin(t, id) {
        Some(m) => format!("D65 {:?}", m.3.iter().map(|v| *v as f64 / 10_000_f64).collect::<Vec<_>>()),
        None => String::new(),
    };
    x.attr("matrix1", s);
    x.attr("matrix2", "");
}
