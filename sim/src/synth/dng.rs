//! DNG files.
use super::tb::*;
use super::*;

/// How the raw image of a plain TIFF directory is stored.
pub struct RawOpts {
    /// compressed variants allowed
    pub ljpeg: bool,
    pub tiles: bool,
    /// value of Compression for uncompressed data (1, or a vendor's packing)
    pub bits: &'static [u16],
    pub dng: bool,
    /// order of the samples' bytes, when not the file's
    pub data_be: Option<bool>,
}

/// Add raw image tags to `d` and return what must be answered for it (attributes of the common part).
pub fn tiff_raw(cx: &mut Cx, d: &mut Ifd, o: &RawOpts) -> ExpRaw {
    let be = o.data_be.unwrap_or(cx.be);
    let rng = &mut cx.rng;
    let mut x = ExpRaw::default();
    let kind = {
        let mut k = vec![0usize, 0, 0];
        if o.ljpeg {
            k.extend([1, 1]);
        }
        if o.tiles {
            k.extend([2, 2, 2]);
        }
        if o.dng {
            k.push(3);
        }
        *rng.pick(&k)
    };
    let mut photo = 32803u32;
    let mut w = (rng.range(1, 24) * 2) as usize;
    let mut h = (rng.range(1, 16) * 2) as usize;
    if rng.chance(1, 6) {
        w *= 5;
    }
    if rng.chance(1, 8) {
        h *= 4;
    }
    let bits: u16;
    match kind {
        0 => {
            bits = *rng.pick(o.bits);
            if bits == 10 || bits == 14 {
                w = w.div_ceil(4) * 4;
            }
            let store16 = bits == 16 || ((bits == 12 || bits == 14) && (o.data_be.is_some() || rng.chance(1, 4)));
            let px = enc::pixels(rng, w * h, bits as u32);
            let data = if store16 {
                enc::raw16(&px, be)
            } else {
                match bits {
                    8 => px.iter().map(|p| *p as u8).collect(),
                    12 if be => enc::pack12be(&px, w, false),
                    12 => enc::pack12le(&px, w, false),
                    n => enc::pack_msb(&px, w, n as u32),
                }
            };
            d.add(0x103, V::S(vec![1]));
            d.add(0x102, V::S(vec![bits]));
            // contiguous strips
            let row = data.len() / h;
            let strips = if h > 2 && rng.chance(1, 3) { rng.range(2, 4.min(h as u64)) as usize } else { 1 };
            let rps = h.div_ceil(strips);
            let n = h.div_ceil(rps);
            let c = cx.fb.blob(data);
            let offs: Vec<Cref> = (0..n).map(|i| (c.0, i * rps * row)).collect();
            let lens: Vec<u32> = (0..n).map(|i| (rps.min(h - i * rps) * row) as u32).collect();
            d.add(0x111, V::P(offs));
            d.add(0x117, V::L(lens));
            if cx.rng.chance(1, 2) {
                d.add(0x116, V::L(vec![rps as u32]));
            }
            x.stored = Some(("Raw".into(), 2, u16le(&px)));
            x.stored_dim = Some((w as u32, h as u32));
            x.pixels = Some(px);
            x.uncompressed = true;
            x.dtype = "Raw".into();
            cx.tag(&format!("raw:{}{}{}", bits, if store16 && bits != 16 { "in16" } else { "" }, if n > 1 { "-strips" } else { "" }));
        }
        1 => {
            bits = *rng.pick(&[8u16, 10, 12, 14, 16]);
            let comps = *rng.pick(&[1usize, 2, 2]);
            let cols = w / comps;
            let px = enc::pixels(rng, w * h, bits as u32);
            let lo = ljopts(rng, comps, bits as u32, h);
            let data = enc::ljpeg(rng, cols, h, &px, &lo);
            let n = data.len() as u32;
            let c = cx.fb.stream(data.clone());
            d.add(0x103, V::S(vec![7]));
            d.add(0x102, V::S(vec![bits]));
            d.add(0x111, V::P(vec![c]));
            d.add(0x117, V::L(vec![n]));
            x.stored = Some(("CompressedRaw".into(), 1, data));
            x.stored_dim = Some((w as u32, h as u32));
            x.pixels = Some(px);
            x.dtype = "Raw".into();
            cx.tag("raw:ljpeg");
        }
        2 => {
            bits = *rng.pick(&[8u16, 10, 12, 14, 16]);
            let comps = *rng.pick(&[1usize, 2]);
            let tw = (rng.range(1, 8) * 4) as usize;
            let th = (rng.range(1, 6) * 2) as usize;
            if rng.chance(1, 2) {
                w = tw * rng.range(1, 4) as usize;
                h = th * rng.range(1, 4) as usize;
            }
            let px = enc::pixels(rng, w * h, bits as u32);
            let (nx, ny) = (w.div_ceil(tw), h.div_ceil(th));
            let mut offs = vec![];
            let mut lens = vec![];
            let mut all = vec![];
            for ty in 0..ny {
                for tx in 0..nx {
                    let mut t = Vec::with_capacity(tw * th);
                    for y in 0..th {
                        for xx in 0..tw {
                            let (gy, gx) = (ty * th + y, tx * tw + xx);
                            // the padding of edge tiles is never delivered
                            t.push(if gy < h && gx < w { px[gy * w + gx] } else { 0x55 });
                        }
                    }
                    let mut lo = ljopts(&mut cx.rng, comps, bits as u32, th);
                    if cx.rng.chance(1, 2) {
                        lo.restart = 0;
                    }
                    let data = enc::ljpeg(&mut cx.rng, tw / comps, th, &t, &lo);
                    lens.push(data.len() as u32);
                    all.extend_from_slice(&data);
                    offs.push(cx.fb.stream(data));
                }
            }
            d.add(0x103, V::S(vec![7]));
            d.add(0x102, V::S(vec![bits]));
            d.add(0x142, V::L(vec![tw as u32]));
            d.add(0x143, V::L(vec![th as u32]));
            d.add(0x144, V::P(offs));
            d.add(0x145, V::L(lens));
            x.stored = Some(("CompressedRaw".into(), 3, all));
            x.stored_dim = Some((w as u32, h as u32));
            x.pixels = Some(px);
            x.parallel = nx * ny > 1;
            x.dtype = "Raw".into();
            cx.tag(&format!("raw:tiles{}", nx * ny));
        }
        _ => {
            // a compression the library does not decode is delivered as stored
            bits = 12;
            let n = rng.range(1, 400) as usize;
            let data = rng.bytes(n);
            let c = cx.fb.stream(data.clone());
            d.add(0x103, V::S(vec![*cx.rng.pick(&[8u16, 9, 34892, 52546])]));
            d.add(0x102, V::S(vec![bits]));
            d.add(0x111, V::P(vec![c]));
            d.add(0x117, V::L(vec![n as u32]));
            x.stored = Some(("CompressedRaw".into(), 1, data));
            x.stored_dim = Some((w as u32, h as u32));
            x.dtype = "CompressedRaw".into();
            cx.tag("raw:unknown-compression");
        }
    }
    x.w = w as u32;
    x.h = h as u32;
    x.bpc = bits;
    let dim = |rng: &mut Rng, v: usize| if rng.chance(1, 2) { V::L(vec![v as u32]) } else { V::S(vec![v as u16]) };
    d.add(0x100, dim(&mut cx.rng, w));
    d.add(0x101, dim(&mut cx.rng, h));
    if o.dng && cx.rng.chance(1, 5) {
        photo = 34892;
        cx.tag("raw:linear");
    }
    if cx.rng.chance(5, 6) {
        d.add(0x106, V::S(vec![photo as u16]));
    } else {
        photo = 32803;
    }
    d.add(0x115, V::S(vec![1]));
    x.attr("photometric", if photo == 34892 { "LinearRaw" } else { "CFA" });
    x.attr("mosaic", "RGGB");
    if photo == 32803 {
        let (p, name) = cx.rng.pick(CFA);
        match cx.rng.us(3) {
            0 => {
                d.add(0x828d, V::S(vec![2, 2]));
                d.add(0x828e, if cx.rng.chance(1, 2) { V::B(p.to_vec()) } else { V::U(p.to_vec()) });
                x.attr("mosaic", *name);
            }
            1 => {
                // CFAPattern of Exif: repeat counts, then the pattern
                let mut v = if be { vec![0, 2, 0, 2] } else { vec![2, 0, 2, 0] };
                v.extend_from_slice(p);
                // the count fields hold 2 and 2 either way for this reader
                v[0] = 2;
                v[1] = 2;
                d.add(0xa302, V::U(v));
                x.attr("mosaic", *name);
            }
            _ => {
                // absent: the library's default, not settled here
                x.attrs.remove("mosaic");
            }
        }
    } else {
        x.attrs.remove("mosaic");
    }
    let white = if bits >= 16 { 65535u32 } else { (1 << bits) - 1 };
    x.attr("whites", quad(&[white]));
    x.attr("blacks", quad(&[0]));
    x
}

pub fn ljopts(rng: &mut Rng, comps: usize, prec: u32, h: usize) -> enc::LjOpts {
    enc::LjOpts {
        comps,
        prec,
        psv: if rng.chance(1, 2) { 1 } else { rng.range(1, 7) as u8 },
        pt: 0,
        restart: if rng.chance(1, 5) { rng.range(1, h as u64) as usize } else { 0 },
        ntables: if comps > 1 && rng.chance(1, 2) { 2 } else { 1 },
        extra: rng.chance(1, 4),
    }
}

pub fn rational_f64(v: &[(u32, u32)]) -> Vec<f64> {
    v.iter().map(|r| r.0 as f64 / r.1 as f64).collect()
}

/// A maker note inside its own Undefined entry: header, directory and values together.
/// Returns the entry value and the directory.
pub fn maker_note(cx: &mut Cx, head: &[u8], base: Option<usize>, d: &Ifd) -> V {
    maker_note_subs(cx, head, base, d.clone(), &[])
}

/// A maker note with directories of its own: (entry, directory, whether the entry is `Undefined`).
pub fn maker_note_subs(cx: &mut Cx, head: &[u8], base: Option<usize>, mut d: Ifd, subs: &[(u16, Ifd, bool)]) -> V {
    let c = cx.fb.blob(head.to_vec());
    let b = match base {
        Some(n) => Base::At((c.0, n)),
        None => Base::File,
    };
    let mut more = vec![];
    let listed = cx.fb.dirs.len();
    for (t, s, und) in subs {
        let (sc, ext) = cx.fb.ifd(s, b);
        if *und {
            let n = cx.fb.len(sc) as u32;
            d.add(*t, V::UP(sc, n));
        } else {
            d.add(*t, if cx.rng.chance(1, 2) { V::P(vec![sc]) } else { V::P13(sc) });
        }
        more.push(sc);
        more.extend(ext);
    }
    let be = cx.fb.be;
    if head.starts_with(b"FUJIFILM") {
        // always
        cx.fb.be = false;
    }
    // the directories of a maker note are not dumped but Olympus'
    if !head.starts_with(b"OLYMP") {
        cx.fb.dirs.truncate(listed);
    }
    let (dc, ext) = cx.fb.ifd(&d, b);
    cx.fb.be = be;
    cx.fb.append(c, dc, 1);
    for x in ext.into_iter().chain(more) {
        cx.fb.append(c, x, 2);
    }
    while cx.fb.len(c) < 24 {
        cx.fb.bytes_mut(c).push(0);
    }
    let n = cx.fb.len(c) as u32;
    V::UP(c, n)
}

/// Headers of the maker notes, where their offsets count from, and whether what the library makes of
/// them is settled.
pub const NOTES: &[(&[u8], Option<usize>, bool)] = &[
    (b"", None, true),
    (b"PENTAX \0MM", Some(0), true),
    (b"AOC\0MM", None, true),
    (b"EPSON\0\x01\x00", None, true),
    (b"LEICA\0\0\0", Some(0), true),
    (b"LEICA\0\x02\xff", None, true),
    (b"LEICA\0\x02\0", None, true),
    (b"LEICA\0\x08\0", None, true),
    (b"LEICA\0\x0a\0", None, true),
    (b"LEICA\0\x01\0", Some(0), true),
    (b"LEICA\0\x1a\0", Some(0), true),
    (b"LEICA0\x03\0", Some(0), true),
    (b"LEICA CAMERA AG\0\0\0", None, true),
    (b"YI     \0\0\0\0\0", Some(0), true),
    (b"Ricoh\0\0\0", None, true),
    (b"OLYMPUS\0II\x03\0", Some(0), true),
    (b"OM SYSTEM\0\0\0II\x04\0", Some(0), true),
    (b"OLYMP\0\x01\0", None, true),
    (b"Panasonic\0\0\0", None, true),
    (b"SIGMA\0\0\0\x01\0", None, true),
    (b"FUJIFILM\x0c\0\0\0", Some(0), true),
    (b"FUJIFILM\x0c\0\0\0", Some(0), true),
    (b"Nikon\0\x02\x10\0\0MM\0*\0\0\0\x08", Some(10), true),
    // in a byte order of its own, or none of them certain
    (b"Apple iOS\0\0\x01MM", Some(0), false),
    (b"Nikon\0\x01\0", Some(8), false),
    (b"STMN012\0\0\0\0\0", Some(0), false),
    (b"SEITZ PHOTOTECHNIK\0", None, false),
    (b"LSI1\0", None, false),
    (b"HDRP", None, false),
];

pub fn small_dir(rng: &mut Rng, n: usize) -> Ifd {
    let mut d = Ifd::new();
    d.add(0x10, V::s("note"));
    for _ in 0..rng.us(n) + 1 {
        let t = rng.range(1, 0x300) as u16;
        let v = any_value(rng);
        d.add(t, v);
    }
    d
}

pub fn gen(rng: Rng, fmt: &'static str) -> SynFile {
    let mut rng = rng;
    let be = rng.chance(1, 2);
    let mut cx = Cx::new(rng, be);
    let gpr = fmt == "gpr";
    // a GPR is a DNG
    cx.e.type_ = "Dng";
    cx.e.type_num = 6;
    cx.e.mime = "image/x-adobe-dng";
    cx.e.content = true;
    cx.tag(if be { "be" } else { "le" });
    let head = cx.fb.head(tiff_head(be));

    let mut ifd0 = Ifd::new();
    let mut thumbs: Vec<ExpThumb> = vec![];
    let mut subs: Vec<Ifd> = vec![];
    let primary = cx.rng.chance(1, 4);
    let no_raw = !primary && cx.rng.chance(1, 12);
    let opts = RawOpts { ljpeg: true, tiles: true, bits: &[8, 10, 12, 14, 16, 16, 12], dng: true, data_be: None };
    let mut raw: Option<ExpRaw> = None;
    let mut ids: Vec<ExpThumb> = vec![];
    if primary {
        cx.tag("primary-ifd0");
        ifd0.add(0xfe, V::L(vec![0]));
        raw = Some(tiff_raw(&mut cx, &mut ifd0, &opts));
    } else if cx.rng.chance(5, 6) {
        preview_ifd(&mut cx, &mut ifd0, &mut thumbs, Some(1));
    } else {
        ifd0.add(0xfe, V::L(vec![1]));
    }
    let mut raw_tags = |cx: &mut Cx, d: &mut Ifd, x: &mut ExpRaw| {
        let rng = &mut cx.rng;
        let (w, h) = (x.w, x.h);
        let mut aa = [0u32, 0, w, h];
        let mut alt = None;
        if rng.chance(1, 2) {
            let t = rng.below(h as u64 / 2 + 1) as u32;
            let l = rng.below(w as u64 / 2 + 1) as u32;
            let b = rng.range(t as u64, h as u64) as u32;
            let r = rng.range(l as u64, w as u64) as u32;
            d.add(0xc68d, if rng.chance(1, 2) { V::L(vec![t, l, b, r]) } else { V::S(vec![t as u16, l as u16, b as u16, r as u16]) });
            aa = [l, t, r, b];
            alt = Some([l, t, r - l, b - t]);
        }
        let mut v = vec![rect(aa[0], aa[1], aa[2], aa[3])];
        if let Some(a) = alt {
            v.push(rect(a[0], a[1], a[2], a[3]));
        }
        x.attrs.insert("active", v);
        if rng.chance(1, 2) {
            let (cx0, cy0) = (rng.below(w as u64) as u32, rng.below(h as u64) as u32);
            let (cw, ch) = (rng.range(1, w as u64) as u32, rng.range(1, h as u64) as u32);
            let long = |rng: &mut Rng, a: u32, b: u32| if rng.chance(1, 2) { V::L(vec![a, b]) } else { V::S(vec![a as u16, b as u16]) };
            d.add(0xc61f, long(rng, cx0, cy0));
            d.add(0xc620, long(rng, cw, ch));
            x.attr("crop", rect(aa[0] + cx0, aa[1] + cy0, cw, ch));
        } else {
            x.attr("crop", "");
        }
        let white = if x.bpc >= 16 { 65535u64 } else { (1 << x.bpc) - 1 };
        if rng.chance(1, 2) {
            let n = *rng.pick(&[1usize, 4]);
            let b: Vec<u32> = (0..n).map(|_| rng.below(white / 4) as u32).collect();
            x.attr("blacks", quad(&b));
            d.add(0xc61a, if rng.chance(1, 2) { V::L(b) } else { V::S(b.iter().map(|x| *x as u16).collect()) });
        }
        if rng.chance(1, 2) {
            let n = *rng.pick(&[1usize, 1, 4]);
            let b: Vec<u32> = (0..n).map(|_| rng.range(white / 2, white) as u32).collect();
            x.attr("whites", quad(&b));
            d.add(0xc61d, if rng.chance(1, 2) { V::L(b) } else { V::S(b.iter().map(|x| *x as u16).collect()) });
        }
        if !d.has(0xc61a) && !d.has(0xc61d) && rng.chance(1, 12) {
            // no range between the levels
            let b = rng.range(white / 2, white) as u32;
            let v = b - rng.below(3) as u32;
            x.attr("blacks", quad(&[b]));
            x.attr("whites", quad(&[v]));
            d.add(0xc61a, V::L(vec![b]));
            d.add(0xc61d, V::L(vec![v]));
        }
        if rng.chance(1, 5) {
            let n = if x.bpc <= 12 && rng.chance(2, 3) { 1usize << x.bpc } else { rng.range(3, 300) as usize };
            let mut t: Vec<u16> = (0..n).map(|_| rng.u16()).collect();
            if rng.chance(1, 2) {
                t.sort();
            }
            x.attr("lin", format!("{:?}", Some((n, crate::obs::hash(&u16le(&t))))));
            d.add(0xc618, V::S(t));
            cx.tag("raw:lintable");
        } else {
            x.attr("lin", "None");
        }
    };
    if let Some(x) = raw.as_mut() {
        raw_tags(&mut cx, &mut ifd0, x);
    }
    let npv = cx.rng.us(3);
    let mut order: Vec<usize> = (0..npv).collect();
    if !primary && !no_raw {
        order.push(usize::MAX);
    }
    cx.rng.shuffle(&mut order);
    for k in order {
        let mut d = Ifd::new();
        if k == usize::MAX {
            d.add(0xfe, V::L(vec![0]));
            let mut x = tiff_raw(&mut cx, &mut d, &opts);
            raw_tags(&mut cx, &mut d, &mut x);
            raw = Some(x);
        } else {
            preview_ifd(&mut cx, &mut d, &mut thumbs, Some(1));
        }
        subs.push(d);
    }
    ids.append(&mut thumbs);
    let mut big = vec![];
    // names
    match cx.rng.us(4) {
        0 => cx.e.type_id = Some(0x0d0001),
        1 | 2 => {
            let (m, id) = cx.rng.pick(models::DNG);
            let (m, id) = (*m, *id);
            ifd0.add(if cx.rng.chance(2, 3) { 0x110 } else { 0xc614 }, V::s(m));
            cx.e.type_id = Some(id);
        }
        _ => {
            ifd0.add(0x110, V::s("Unheard Of"));
            cx.e.type_id = Some(0x0d0001);
        }
    }
    if cx.rng.chance(1, 2) {
        ifd0.add(0x10f, V::s(*cx.rng.clone().pick(&["Leica Camera AG", "Maker", "PENTAX", "Apple", "NIKON", "NIKON CORPORATION", "SONY", "Canon", "SEIKO EPSON CORP.", "PENTAX Corporation ", "FUJIFILM", "OLYMPUS IMAGING CORP.", "Panasonic", "RICOH"])));
    }
    ifd0.add(0xc612, V::B(vec![1, 4, 0, 0]));
    orientation(&mut cx.rng, &mut ifd0);
    let n = cx.rng.us(10);
    plain_tags(&mut cx.rng, &mut ifd0, n);
    colour(&mut cx, &mut ifd0, raw.as_mut());
    // exif, gps, maker note
    if cx.rng.chance(3, 4) {
        let mut ex = photo_ifd(&mut cx.rng);
        if cx.rng.chance(1, 2) {
            let (h, base, known) = NOTES[cx.rng.us(NOTES.len())];
            let mut d = small_dir(&mut cx.rng, 6);
            if h == b"LEICA\0\x02\xff" && cx.rng.chance(2, 3) {
                // the M (Typ 240) has a larger preview there
                let (c, n) = super::tiffs::loose_jpeg(&mut cx, &mut big, false);
                d.add(0x300, V::UP(c, n));
                cx.tag("leica-preview");
            }
            let mut h = h.to_vec();
            if h.len() == 18 && h.starts_with(b"Nikon") {
                h[10..12].copy_from_slice(if be { b"MM" } else { b"II" });
                h[12..14].copy_from_slice(&if be { 42u16.to_be_bytes() } else { 42u16.to_le_bytes() });
                h[14..18].copy_from_slice(&if be { 8u32.to_be_bytes() } else { 8u32.to_le_bytes() });
            }
            let v = maker_note(&mut cx, &h, base, &d);
            ex.add(0x927c, v);
            if known {
                expect_dir(&mut cx.e, 2, &d);
                cx.e.names.extend(super::mnames::of("dng", &h).map(|n| (2, n)));
            } else {
                cx.fb.dirs.pop();
            }
            cx.tag("makernote");
        } else {
            cx.e.no_dirs.push(2);
        }
        expect_dir(&mut cx.e, 1, &ex);
        let (c, _) = cx.fb.ifd(&ex, Base::File);
        ifd0.add(0x8769, V::P(vec![c]));
    } else {
        cx.e.no_dirs.push(1);
        cx.e.no_dirs.push(2);
    }
    if cx.rng.chance(1, 3) {
        let g = gps_ifd(&mut cx.rng);
        let (c, _) = cx.fb.ifd(&g, Base::File);
        ifd0.add(0x8825, V::P(vec![c]));
    }
    if !subs.is_empty() {
        let refs: Vec<Cref> = subs.iter().map(|d| cx.fb.ifd(d, Base::File).0).collect();
        ifd0.add(0x14a, V::P(refs));
    }
    // a second directory in the chain
    let mut second = None;
    let mut more: Vec<Ifd> = vec![];
    let mut chain_thumbs = vec![];
    if cx.rng.chance(1, 25) {
        // a long chain
        let mut next = None;
        for _ in 0..cx.rng.range(5, 60) {
            let mut d = Ifd::new();
            let n = cx.rng.us(3);
            plain_tags(&mut cx.rng, &mut d, n);
            d.next = next;
            next = Some(cx.fb.ifd(&d, Base::File).0);
            more.push(d);
        }
        more.reverse();
        ifd0.next = next;
    }
    if cx.rng.chance(1, 3) {
        let mut d = Ifd::new();
        preview_ifd(&mut cx, &mut d, &mut chain_thumbs, None);
        let n = cx.rng.us(4);
        plain_tags(&mut cx.rng, &mut d, n);
        d.next = ifd0.next;
        let (c, _) = cx.fb.ifd(&d, Base::File);
        ifd0.next = Some(c);
        second = Some(d);
    }
    ids.extend(chain_thumbs);
    for t in big {
        if ids.iter().any(|x| x.dim == t.dim) {
            cx.e.hidden.push(t);
        } else {
            ids.push(t);
        }
    }
    cx.e.thumbs = Some(ids);
    cx.e.raw = raw;
    let (c0, _) = cx.fb.ifd(&ifd0, Base::File);
    cx.fb.ptr((head.0, 4), c0, Base::File, be);
    let shuffle = cx.rng.chance(2, 3);
    let gap = *cx.rng.pick(&[0usize, 0, 8, 300]);
    let fb = std::mem::replace(&mut cx.fb, Fb::new(be, Rng::new(0)));
    let b = fb.build(head, None, shuffle, gap);
    let mut chain: Vec<(&'static str, &Ifd, Namer)> = vec![("Exif.Image", &ifd0, tag_name)];
    if let Some(d) = &second {
        chain.push(("other", d, tag_name));
    }
    for d in &more {
        chain.push(("other", d, tag_name));
    }
    expect_meta(&mut cx.e, &chain, &b, 0);
    let ext = if gpr { "gpr" } else { "dng" };
    cx.finish(fmt, ext, b)
}

/// Colour calibration in the main directory.
fn colour(cx: &mut Cx, d: &mut Ifd, x: Option<&mut ExpRaw>) {
    let rng = &mut cx.rng;
    let mut attrs: Vec<(&'static str, String)> = vec![];
    let mut nonz = |rng: &mut Rng| rng.range(1, 10000) as u32;
    match rng.us(3) {
        0 => {
            let n = 3 + rng.us(2);
            let v: Vec<(u32, u32)> = (0..n).map(|_| (nonz(rng), nonz(rng))).collect();
            let f = rational_f64(&v);
            let mut q = [f[0], f[1], f[2], f64::NAN];
            if n > 3 {
                q[3] = f[3];
            }
            attrs.push(("neutral", format!("{:?}", q)));
            d.add(0xc628, V::R(v));
        }
        1 => {
            let v: Vec<(u32, u32)> = (0..2).map(|_| (nonz(rng), nonz(rng))).collect();
            let f = rational_f64(&v);
            attrs.push(("white_xy", format!("{:?}", (f[0], f[1]))));
            d.add(0xc629, V::R(v));
        }
        _ => {}
    }
    for i in 0..2 {
        if rng.chance(1, 2) {
            // nine for three colours, twelve for four
            let n = *rng.pick(&[9usize, 9, 9, 9, 9, 12, 12, 8, 10, 16]);
            let v: Vec<(i32, i32)> = (0..n).map(|k| (if k % 4 == 0 { 9000 + rng.below(4000) as i32 } else { rng.below(4000) as i32 - 2000 }, 10000)).collect();
            let m: Vec<f64> = v.iter().map(|r| r.0 as f64 / r.1 as f64).collect();
            d.add(0xc621 + i, V::SR(v));
            let mut ill = "Unknown".to_string();
            if rng.chance(2, 3) {
                let (n, name) = *rng.pick(&[(17u16, "StandardA"), (21, "D65"), (20, "D55"), (23, "D50"), (1, "Daylight"), (255, "Other")]);
                d.add(0xc65a + i, V::S(vec![n]));
                ill = name.into();
            }
            attrs.push((if i == 0 { "matrix1" } else { "matrix2" }, format!("{ill} {m:?}")));
        } else {
            attrs.push((if i == 0 { "matrix1" } else { "matrix2" }, String::new()));
        }
    }
    if let Some(x) = x {
        for (k, v) in attrs {
            x.attr(k, v);
        }
    }
}
