//! Panasonic RW2 files.
use super::tb::*;
use super::tiffs::*;
use super::*;

fn pana_name(t: u16) -> &'static str {
    names::PANASONIC.iter().find(|x| x.0 == t).map(|x| x.1).unwrap_or("")
}

/// The compression of the first cameras with RW2: groups of 16 bytes with 14 samples of two colours.
/// The first group of a block of 0x4000 bytes is in the middle.
pub fn raw1(data: &[u8]) -> Vec<u16> {
    let mut out = vec![];
    for block in data.chunks(0x4000) {
        let mut b = vec![0u8; 0x4000];
        b[0x2008..].copy_from_slice(&block[..0x1ff8]);
        b[..0x2008].copy_from_slice(&block[0x1ff8..]);
        for g in 0..0x400 {
            let mut left = 128;
            let mut v: u128 = 0;
            for i in (0..16).rev() {
                // from the last byte down
                v = v << 8 | b[g * 16 + i] as u128;
            }
            let mut bits = |n: u32| -> u32 {
                left -= n;
                (v >> left) as u32 & ((1 << n) - 1)
            };
            let mut pred = [0i32; 2];
            let mut nonz = [false; 2];
            let mut sh = 0;
            for i in 0..14 {
                let c = i & 1;
                if i % 3 == 2 {
                    sh = 4 >> (3 - bits(2));
                }
                if nonz[c] {
                    let j = bits(8) as i32;
                    if j != 0 {
                        pred[c] -= 0x80 << sh;
                        if pred[c] < 0 || sh == 4 {
                            pred[c] &= !(-1 << sh);
                        }
                        pred[c] += j << sh;
                    }
                } else {
                    let j = bits(8);
                    if j != 0 {
                        nonz[c] = true;
                        pred[c] = (j << 4 | bits(4)) as i32;
                    }
                }
                out.push(pred[c] as u16);
            }
        }
    }
    out
}

pub fn gen(rng: Rng) -> SynFile {
    let mut rng = rng;
    let leica = rng.chance(1, 6);
    let mut cx = Cx::new(rng, false);
    cx.e.type_ = "Rw2";
    cx.e.type_num = 12;
    cx.e.mime = "image/x-panasonic-rw2";
    cx.e.content = true;
    let ext = *cx.rng.pick(&["rw2", "rw2", "raw", "rwl"]);
    let mut p = Parts::new("rw2", ext, false);
    p.head = b"IIU\0\0\0\0\0".to_vec();
    p.namer0 = pana_name;
    common(&mut cx, &mut p);
    p.ifd0.e.retain(|e| e.0 == 0x112 || !pana_name(e.0).is_empty() || e.0 > 0x200);
    p.exif = None;
    p.gps = false;
    p.ifd0.add(0x10f, V::s(if leica { "LEICA" } else { "Panasonic" }));
    let mut id = 0xb0000;
    if cx.rng.chance(5, 6) {
        let (m, i) = *cx.rng.pick(models::PANASONIC);
        p.ifd0.add(0x110, V::s(m));
        id = i;
    } else {
        p.ifd0.add(0x110, V::s("DMC-NONE"));
    }
    cx.e.type_id = Some(id);
    let mut camera = vec![];
    for _ in 0..cx.rng.us(5) {
        let t = *cx.rng.pick(&[0x1u16, 0x8, 0x13, 0x17, 0x18, 0x27, 0x120 - 1, 0x119, 0x11c, 0x121]);
        let v = any_value(&mut cx.rng);
        p.ifd0.add(t, v);
    }
    if cx.rng.chance(1, 3) {
        // the camera's directory, in a file of its own
        let mut r = cx.rng.fork(11);
        let mut fb = Fb::new(r.chance(1, 4), r.fork(1));
        let head = fb.head(tiff_head(fb.be));
        let d = dng::small_dir(&mut r, 5);
        let (c, _) = fb.ifd(&d, Base::File);
        let be = fb.be;
        fb.ptr((head.0, 4), c, Base::File, be);
        let b = fb.build(head, None, r.chance(1, 2), *r.pick(&[0usize, 0, 8]));
        let c = cx.fb.blob(b.bytes.clone());
        for m in &b.marks {
            cx.fb.mark(c, m.kind, m.off, m.len, m.be);
        }
        p.ifd0.add(0x120, V::UP(c, b.bytes.len() as u32));
        camera = b.dirs;
        cx.tag("rw2:camera");
    }
    // the preview, with a preview
    let mut thumbs = vec![];
    let mut inner = None;
    if cx.rng.chance(4, 5) {
        let (w, h) = jpeg_dims(&mut cx.rng);
        if cx.rng.chance(4, 5) {
            let heads: &[(&'static [u8], Option<usize>)] = &[(b"Panasonic\0\0\0", None), (b"LEICA CAMERA AG\0\0\0", None), (b"LEICA\0\0\0", None)];
            let f = jpeg::exif_jpeg(cx.rng.fork(9), w + (w == 160) as u32, h.min(w) - (h == 160) as u32, heads);
            let (w, h) = (w + (w == 160) as u32, h.min(w) - (h == 160) as u32);
            thumbs.extend(f.exp.thumbs.clone().unwrap_or_default());
            thumbs.push(ExpThumb { dim: w.max(h), w, h, fmt: "Jpeg", data: f.bytes.clone() });
            let c = cx.fb.blob(f.bytes.clone());
            for m in &f.marks {
                cx.fb.mark(c, m.kind, m.off, m.len, m.be);
            }
            p.ifd0.add(0x2e, V::UP(c, f.bytes.len() as u32));
            for t in &f.tags {
                cx.tag(t);
            }
            inner = Some(f.exp);
        } else {
            let body = super::body_len(&mut cx.rng, 200);
            let j = enc::jpeg(&mut cx.rng, w, h, body);
            let c = cx.fb.stream(j.clone());
            p.ifd0.add(0x2e, V::UP(c, j.len() as u32));
            thumbs.push(ExpThumb { dim: w.max(h), w, h, fmt: "Jpeg", data: j });
        }
    } else if cx.rng.chance(1, 2) {
        p.exif = Some(photo_ifd(&mut cx.rng));
    }
    // the raw image, at the end
    let mut x = ExpRaw { dtype: "Raw".into(), ..Default::default() };
    let small = cx.rng.chance(1, 2);
    let kind = cx.rng.us(if small { 3 } else { 5 });
    let mut comp = None;
    let r = &mut cx.rng;
    let (w, h);
    let data: Vec<u8>;
    match kind {
        0 => {
            (w, h) = (r.range(1, 60) as usize, r.range(1, 30) as usize);
            let px = enc::pixels(r, w * h, 12);
            data = px.iter().flat_map(|p| (p << 4 | r.u16() & 15).to_le_bytes()).collect();
            x.stored = Some(("Raw".into(), 2, u16le(&px)));
            x.pixels = Some(px);
            x.uncompressed = true;
            cx.tags.push("raw:12in16".into());
        }
        1 => {
            (w, h) = (r.range(1, 6) as usize * 10, r.range(1, 30) as usize);
            let px = enc::pixels(r, w * h, 12);
            data = enc::pack12le(&px, w, true);
            x.stored = Some(("Raw".into(), 2, u16le(&px)));
            x.pixels = Some(px);
            x.uncompressed = true;
            cx.tags.push("raw:packed".into());
        }
        2 => {
            // a compression the library does not decode
            (w, h) = (r.range(1, 400) as usize, r.range(1, 300) as usize);
            let n = r.range(1, 400) as usize;
            data = r.bytes(n);
            comp = Some(*r.pick(&[34826u16, 34828, 34830]));
            x.stored = Some(("CompressedRaw".into(), 1, data.clone()));
            x.dtype = "CompressedRaw".into();
            cx.tags.push("raw:unknown-compression".into());
        }
        _ => {
            let n = if r.chance(1, 4) { 2 } else { 1 };
            h = r.range(20, 60) as usize;
            w = n * 14336 / h / 14 * 14;
            let zeros = r.us(3);
            data = (0..n * 0x4000)
                .map(|_| match zeros {
                    1 if r.chance(1, 3) => 0,
                    2 if r.chance(5, 6) => 0,
                    _ => r.u8(),
                })
                .collect();
            comp = Some(34316);
            x.stored = Some(("CompressedRaw".into(), 1, data.clone()));
            x.pixels = Some(raw1(&data));
            cx.tags.push("raw:panasonic1".into());
        }
    }
    let r = &mut cx.rng;
    let n = data.len() as u32;
    let c = cx.fb.stream(data);
    if kind >= 3 && r.chance(1, 2) || kind == 2 {
        p.ifd0.add(0x118, V::P(vec![c]));
        if r.chance(1, 2) {
            p.ifd0.add(0x111, V::L(vec![0xffff_ffff]));
            p.ifd0.add(0x117, V::L(vec![r.u32()]));
        }
        cx.tags.push("raw-offset".into());
    } else {
        p.ifd0.add(0x111, V::P(vec![c]));
        p.ifd0.add(0x117, V::L(vec![n]));
    }
    p.last = Some(c);
    if let Some(c) = comp {
        p.ifd0.add(0xb, V::S(vec![c]));
    }
    let short = |r: &mut Rng, v: usize| if r.chance(3, 4) { V::S(vec![v as u16]) } else { V::L(vec![v as u32]) };
    p.ifd0.add(2, short(r, w));
    p.ifd0.add(3, short(r, h));
    x.w = w as u32;
    x.h = h as u32;
    x.stored_dim = Some((x.w, x.h));
    x.bpc = 16;
    if r.chance(5, 6) {
        x.bpc = *r.pick(&[12u16, 12, 14]);
        p.ifd0.add(0xa, V::S(vec![x.bpc]));
    }
    if r.chance(5, 6) {
        let n = r.range(1, 4) as u16;
        p.ifd0.add(9, V::S(vec![n]));
        x.attr("mosaic", ["", "RGGB", "GRBG", "GBRG", "BGGR"][n as usize]);
    }
    x.attr("active", rect(0, 0, x.w, x.h));
    let mut b = [0u32; 4];
    for (i, b) in b.iter_mut().enumerate() {
        if r.chance(5, 6) {
            *b = r.below(if i < 2 { 20 } else { 6000 }) as u32;
            p.ifd0.add(4 + i as u16, V::S(vec![*b as u16]));
        }
    }
    let (y, xx) = (b[0], b[1]);
    x.attr("crop", rect(xx, y, b[3].saturating_sub(xx), b[2].saturating_sub(y)));
    x.attr("aspect", "");
    x.attr("photometric", "CFA");
    let max = ((1u32 << x.bpc) - 1).min(65535);
    let mut three = |r: &mut Rng, t: u16, d: u32, lo: u64, hi: u64| -> [u32; 4] {
        let mut v = [d; 3];
        if r.chance(2, 3) {
            for (i, v) in v.iter_mut().enumerate() {
                *v = r.range(lo, hi) as u32;
                p.ifd0.add(t + i as u16, V::S(vec![*v as u16]));
            }
        }
        [v[0], v[1], v[2], v[1]]
    };
    x.attr("whites", quad(&three(r, 0xe, max, 2000, 65535)));
    x.attr("blacks", quad(&three(r, 0x1c, 0, 0, 300)));
    match r.us(3) {
        0 => {
            let v: Vec<u16> = (0..3).map(|_| r.range(1, 3000) as u16).collect();
            for (i, v) in v.iter().enumerate() {
                p.ifd0.add(0x24 + i as u16, V::S(vec![*v]));
            }
            x.attr("neutral", format!("{:?}", [v[1] as f64 / v[0] as f64, 1.0, v[1] as f64 / v[2] as f64, f64::NAN]));
        }
        1 => {
            let v: Vec<u16> = (0..2).map(|_| r.range(1, 3000) as u16).collect();
            for (i, v) in v.iter().enumerate() {
                p.ifd0.add(0x11 + i as u16, V::S(vec![*v]));
            }
            x.attr("neutral", format!("{:?}", [256.0 / v[0] as f64, 1.0, 256.0 / v[1] as f64, f64::NAN]));
        }
        _ => x.attr("neutral", ""),
    }
    builtin_matrix(&mut x, mats::PANASONIC_M, id);
    cx.e.thumbs = Some(thumbs);
    cx.e.raw = Some(x);
    let own = p.exif.is_some();
    let mut f = assemble(cx, p);
    f.exp.dumped.extend(camera);
    if let Some(e) = inner {
        f.exp.dirs.retain(|d| d.0 == 0);
        f.exp.dirs.extend(e.dirs.into_iter().filter(|d| d.0 != 0));
        f.exp.no_dirs = e.no_dirs;
    } else {
        f.exp.no_dirs = if own { vec![2] } else { vec![1, 2] };
    }
    f
}
