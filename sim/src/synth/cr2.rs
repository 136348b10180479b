//! Canon CR2 files, and the TIF files of the first EOS-1D.
use super::tb::*;
use super::tiffs::*;
use super::*;

/// Put `px`, a w x h image, in the order of Canon's slices.
fn slice(px: &[u16], w: usize, h: usize, widths: &[usize]) -> Vec<u16> {
    let mut o = vec![];
    let mut x = 0;
    for s in widths {
        for y in 0..h {
            o.extend_from_slice(&px[y * w + x..y * w + x + s]);
        }
        x += s;
    }
    o
}

/// (version word, length, index of the black levels, of the white balance) per kind of colour data
const COLOUR: &[(i32, usize, usize, usize)] = &[
    (-1000, 582, 0, 25),
    (-1000, 653, 0, 24),
    (1, 796, 196, 63),
    (2, 674, 0, 63),
    (3, 692, 0, 63),
    (4, 1250, 692, 63),
    (5, 1251, 692, 63),
    (6, 1337, 715, 63),
    (7, 1338, 715, 63),
    (9, 1346, 719, 63),
    (-4, 5120, 333, 71),
    (-3, 3600, 264, 71),
    (10, 1273, 479, 63),
    (10, 1275, 479, 63),
    (10, 1312, 504, 63),
    (11, 1316, 728, 63),
    (12, 1560, 778, 63),
    (13, 1592, 778, 63),
    (14, 1602, 556, 63),
    (15, 1602, 778, 63),
    (16, 1816, 329, 71),
    (17, 1820, 329, 71),
    (18, 1824, 329, 71),
    (32, 2024, 343, 85),
    (33, 3656, 343, 85),
    (34, 3973, 363, 105),
    (48, 3778, 363, 105),
];

/// Canon's maker note: what a CR2 and a CR3 have in common. (The model number is the caller's.)
pub fn colour_note(r: &mut Rng, note: &mut Ifd, x: &mut ExpRaw, be: bool) {
    let array = |r: &mut Rng, v: Vec<u16>| {
        if r.chance(1, 5) {
            V::U(v.iter().flat_map(|v| if be { v.to_be_bytes() } else { v.to_le_bytes() }).collect())
        } else {
            V::S(v)
        }
    };
    let (mut ax, mut ay) = (0, 0);
    x.attr("active", "");
    if r.chance(3, 4) {
        let mut v: Vec<u16> = (0..17).map(|_| r.below(300) as u16).collect();
        v[7] = v[5] + r.range(1, 5000) as u16;
        v[8] = v[6] + r.range(1, 5000) as u16;
        let even = |a: u16, b: u16| (b - a) as u32 + ((b - a) as u32 & 1);
        (ax, ay) = (v[5] as u32, v[6] as u32);
        x.attr("active", rect(ax, ay, even(v[5], v[7]), even(v[6], v[8])));
        note.add(0xe0, array(r, v));
    }
    x.attr("crop", "");
    x.attr("aspect", "");
    if r.chance(2, 3) {
        let (n, a) = *r.pick(&[(0u32, "3/2"), (12, "3/2"), (13, "3/2"), (256, "3/2"), (1, "1/1"), (2, "4/3"), (258, "4/3"), (7, "16/9"), (8, "4/5"), (99, "")]);
        let v: Vec<u32> = (0..4).map(|_| r.below(5000) as u32).collect();
        x.attr("crop", rect(v[2] + ax, v[3] + ay, v[0], v[1]));
        x.attr("aspect", a);
        note.add(0x9a, V::L(vec![n, v[0], v[1], v[2], v[3]]));
    }
    x.attr("neutral", "");
    if r.chance(3, 4) {
        let (ver, len, b, wb) = *r.pick(COLOUR);
        let mut v: Vec<u16> = (0..len).map(|_| r.range(1, 4000) as u16).collect();
        if ver != -1000 {
            v[0] = ver as i16 as u16;
        }
        if b > 0 {
            if r.chance(1, 4) {
                v[b..b + 4].fill(0);
            } else {
                x.attr("blacks", format!("{:?}", &v[b..b + 4]));
            }
        }
        let g = v[wb + 1] as f64;
        x.attr("neutral", format!("{:?}", [g / v[wb] as f64, 1.0, g / v[wb + 3] as f64, f64::NAN]));
        note.add(0x4001, array(r, v));
    }
}

pub fn gen(rng: Rng) -> SynFile {
    let mut rng = rng;
    let be = rng.chance(1, 4);
    let mut cx = Cx::new(rng, be);
    cx.e.type_ = "Cr2";
    cx.e.type_num = 1;
    cx.e.mime = "image/x-canon-cr2";
    cx.e.content = true;
    cx.tag(if be { "be" } else { "le" });
    let mut p = Parts::new("cr2", "cr2", be);
    let old = cx.rng.chance(1, 6);
    if !old {
        p.head.extend_from_slice(b"CR\x02\0");
        p.head.extend(cx.rng.bytes(4));
    }
    let mut thumbs = vec![];
    common(&mut cx, &mut p);
    if old || cx.rng.chance(9, 10) {
        p.ifd0.add(0x10f, V::s("Canon"));
    }
    if cx.rng.chance(3, 4) {
        let (m, _) = *cx.rng.pick(models::CANON);
        p.ifd0.add(0x110, V::s(m));
    }
    preview_ifd(&mut cx, &mut p.ifd0, &mut thumbs, None);
    for _ in 0..2 {
        let mut d = Ifd::new();
        if cx.rng.chance(4, 5) {
            preview_ifd(&mut cx, &mut d, &mut thumbs, None);
        }
        let n = cx.rng.us(4);
        plain_tags(&mut cx.rng, &mut d, n);
        p.chain.push(("other", d));
    }
    // the camera
    let mut note = Ifd::new();
    for _ in 0..cx.rng.us(5) {
        let t = *cx.rng.pick(&[1u16, 2, 4, 6, 7, 9, 0xc, 0x13, 0x26, 0x95, 0x96, 0xb4]);
        let v = any_value(&mut cx.rng);
        note.add(t, v);
    }
    note.add(6, V::s("Canon EOS something"));
    note.add(9, V::s("someone"));
    let noted = old || cx.rng.chance(5, 6);
    let mut id = 0x10000;
    if old {
        let n = *cx.rng.pick(&[0x8000_0001u32, 0x8000_0167]);
        id = models::CANON_IDS.iter().find(|m| m.0 == n).unwrap().1;
        note.add(0x10, V::L(vec![n]));
    } else if noted {
        match cx.rng.us(6) {
            0 => {}
            1 => {
                note.add(0x10, V::L(vec![0x7000_0000]));
            }
            _ => {
                let m: Vec<_> = models::CANON_IDS.iter().filter(|m| m.0 != 0x8000_0001 && m.0 != 0x8000_0167).collect();
                let (n, i) = **cx.rng.pick(&m);
                note.add(0x10, V::L(vec![n]));
                id = i;
            }
        }
    }
    cx.e.type_id = Some(id);
    // the raw image
    let mut x = ExpRaw { dtype: "Raw".into(), ..Default::default() };
    let r = &mut cx.rng;
    let comps = if old { 2 } else { *r.pick(&[2usize, 2, 2, 4, 4, 1]) };
    let (cols, rows) = (r.range(2, 24) as usize, r.range(1, 30) as usize);
    let bits = *r.pick(&[12u32, 14, 14]);
    let sliced = !old && r.chance(2, 3);
    let tall = comps == 4 && (!sliced || r.chance(1, 3));
    let (w, h) = if tall { (cols * 2, rows * 2) } else { (cols * comps, rows) };
    let px = enc::pixels(r, w * h, bits);
    let mut stream = px.clone();
    let mut rd = Ifd::new();
    if sliced {
        // n slices of a width, and one of the rest
        let n = if r.chance(3, 4) { r.range(1, 2.min(w as u64 - 1)) } else { r.below(w as u64) } as usize;
        let s = if n == 0 { r.us(100) } else { r.range(1, ((w - 1) / n) as u64) as usize };
        let rest = w - n * s;
        let mut v = vec![s; n];
        let rest = if n == 0 { w } else { rest };
        v.push(rest);
        stream = slice(&px, w, h, &v);
        rd.add(0xc640, if r.chance(3, 4) { V::S(vec![n as u16, s as u16, rest as u16]) } else { V::L(vec![n as u32, s as u32, rest as u32]) });
        cx.tags.push("raw:sliced".into());
    }
    if tall {
        cx.tags.push("raw:double-height".into());
    }
    let r = &mut cx.rng;
    let lo = dng::ljopts(r, comps, bits, rows);
    let data = enc::ljpeg(r, cols, rows, &stream, &lo);
    let n = data.len() as u32;
    let c = cx.fb.stream(data.clone());
    x.w = w as u32;
    x.h = h as u32;
    x.bpc = bits as u16;
    x.stored = Some(("CompressedRaw".into(), 1, data));
    x.pixels = Some(px);
    x.stored_dim = Some((0, 0));
    x.attr("photometric", "CFA");
    x.attr("mosaic", "RGGB");
    let mat = builtin(mats::CANON_M, id);
    x.attr("blacks", quad(&[mat.map(|m| m.1 as u32).unwrap_or(0)]));
    let white = match mat {
        Some(m) if m.2 != 0 => m.2 as u32,
        _ => (1 << bits) - 1,
    };
    x.attr("whites", quad(&[white]));
    builtin_matrix(&mut x, mats::CANON_M, id);
    if old {
        note.add(0x81, V::P(vec![c]));
        if cx.rng.chance(1, 2) {
            note.add(0x82, V::L(vec![n]));
        } else {
            p.last = Some(c);
        }
        for k in ["active", "crop", "aspect", "neutral"] {
            x.attr(k, "");
        }
        if cx.rng.chance(2, 3) {
            let r = &mut cx.rng;
            let v: Vec<u16> = (0..r.range(3, 30)).map(|_| r.range(1, 4000) as u16).collect();
            let g = v[1] as f64;
            x.attr("neutral", format!("{:?}", [g / v[0] as f64, 1.0, g / v[2] as f64, f64::NAN]));
            note.add(0xa4, V::S(v));
        }
        cx.tag("raw:old-tif");
    } else {
        rd.add(0x103, V::S(vec![6]));
        rd.add(0x111, V::P(vec![c]));
        rd.add(0x117, V::L(vec![n]));
        let r = &mut cx.rng;
        if r.chance(1, 2) {
            rd.add(0xa002, if r.chance(1, 2) { V::S(vec![w as u16]) } else { V::L(vec![w as u32]) });
            rd.add(0xa003, V::S(vec![h as u16]));
            x.stored_dim = Some((x.w, x.h));
        }
        if r.chance(4, 5) {
            let n = *r.pick(&[1u32, 1, 3]);
            rd.add(0xc5e0, if r.chance(1, 2) { V::L(vec![n]) } else { V::S(vec![n as u16]) });
            x.attr("mosaic", if n == 3 { "GBRG" } else { "RGGB" });
        }
        plain_tags(r, &mut rd, 2);
        if noted {
            colour_note(r, &mut note, &mut x, be);
        } else {
            for k in ["active", "crop", "aspect", "neutral"] {
                x.attr(k, "");
            }
        }
    }
    p.chain.push(("Raw", rd));
    if noted {
        p.note = Some(Note { head: vec![], base: None, dir: note, known: true, subs: vec![] });
    }
    cx.e.thumbs = Some(thumbs);
    cx.e.raw = Some(x);
    assemble(cx, p)
}
