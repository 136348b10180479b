//! Nikon NEF files.
use super::tb::*;
use super::tiffs::*;
use super::*;

type Tree = &'static [(&'static str, u32)];
const LOSSY12: Tree = &[
    ("00", 5), ("010", 4), ("011", 3), ("100", 6), ("101", 2), ("110", 7), ("1110", 1), ("11110", 0), ("111110", 8), ("1111110", 9), ("11111110", 11), ("111111110", 10), ("1111111110", 12),
];
const LOSSY14: Tree = &[
    ("00", 5), ("010", 6), ("011", 4), ("100", 7), ("101", 8), ("1100", 3), ("1101", 9), ("11100", 2), ("11101", 1), ("111100", 0), ("111101", 10), ("111110", 11), ("1111110", 12), ("11111110", 13), ("11111111", 14),
];
const LOSSLESS14: Tree = &[
    ("00", 7), ("010", 6), ("011", 8), ("100", 5), ("101", 9), ("1100", 4), ("1101", 10), ("11100", 3), ("11101", 11), ("111100", 12), ("111101", 2), ("111110", 0), ("1111110", 1), ("11111110", 13), ("11111111", 14),
];

/// Samples as differences, from the predictors of the table.
fn encode(px: &[u16], w: usize, h: usize, mut vp: [[u16; 2]; 2], tree: Tree) -> Vec<u8> {
    let mut o = enc::BitW::default();
    for y in 0..h {
        let mut hp = [0u16; 2];
        for x in 0..w {
            let v = px[y * w + x];
            let p = if x < 2 { vp[y & 1][x] } else { hp[x & 1] };
            if x < 2 {
                vp[y & 1][x] = v;
            }
            hp[x & 1] = v;
            let d = v as i32 - p as i32;
            let n = 32 - d.unsigned_abs().leading_zeros();
            let code = tree.iter().find(|c| c.1 == n).unwrap().0;
            o.put(u32::from_str_radix(code, 2).unwrap(), code.len() as u32);
            if n > 0 {
                o.put(if d < 0 { (d - 1 + (1 << n)) as u32 } else { d as u32 }, n);
            }
        }
    }
    o.flush(false);
    o.out
}

/// The vendor's compression, with the table in the maker note.
fn quantized(cx: &mut Cx, d: &mut Ifd, note: &mut Ifd) -> ExpRaw {
    let mut x = ExpRaw::default();
    let be = cx.be;
    let (w, h) = (cx.rng.range(2, 60) as usize, cx.rng.range(1, 40) as usize);
    // 0 lossless, 1 curve by steps, 2 whole curve, 3 whole curve behind something else, 4 not decoded
    let kind = cx.rng.us(5);
    let bits = if kind == 0 { 14 } else if kind == 4 { 12 } else { *cx.rng.pick(&[12u32, 14]) };
    let px = enc::pixels(&mut cx.rng, w * h, bits);
    let max = (1u32 << bits) - 1;
    let mut vp = [[0u16; 2]; 2];
    for v in vp.iter_mut().flatten() {
        *v = cx.rng.below(max as u64 + 1) as u16;
    }
    let tree = match (kind, bits) {
        (0, _) => LOSSLESS14,
        (_, 14) => LOSSY14,
        _ => LOSSY12,
    };
    let r = &mut cx.rng;
    let mut t: Vec<u8> = match kind {
        0 | 4 => vec![0x46, 0x30],
        1 => vec![0x44, 0x20],
        2 => vec![0x44, *r.pick(&[0x10u8, 0x40])],
        _ => vec![0x49, r.u8()],
    };
    if kind == 3 {
        t.extend(r.bytes(2110));
    }
    let p16 = |t: &mut Vec<u8>, v: u16| t.extend_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
    for v in vp.iter().flatten() {
        p16(&mut t, *v);
    }
    // what the samples stand for
    let mut curve: Vec<u16> = (0..0x8000).collect();
    let mut up = |r: &mut Rng, n: usize| {
        let mut v: Vec<u16> = (0..n).map(|_| r.below(max as u64 + 1) as u16).collect();
        v.sort();
        v
    };
    match kind {
        0 | 4 => p16(&mut t, r.u16()),
        1 => {
            let n = *r.pick(&[257usize, 33, 129, 100]);
            let step = (1usize << bits) / (n - 1);
            let v = up(r, n);
            p16(&mut t, n as u16);
            for (i, c) in v.iter().enumerate() {
                p16(&mut t, *c);
                curve[i * step] = *c;
            }
            for i in 0..1usize << bits {
                let k = i % step;
                curve[i] = ((curve[i - k] as usize * (step - k) + curve[i - k + step] as usize * k) / step) as u16;
            }
        }
        _ => {
            let n = *r.pick(&[1usize, 200, 500, 1000]);
            let v = up(r, n);
            p16(&mut t, n as u16);
            for (i, c) in v.iter().enumerate() {
                p16(&mut t, *c);
                curve[i] = *c;
            }
            for c in &mut curve[n..] {
                *c = v[n - 1];
            }
        }
    }
    if r.chance(1, 2) {
        let n = r.us(30);
        t.extend(r.bytes(n));
    }
    note.add(0x96, V::U(t));
    let data = encode(&px, w, h, vp, tree);
    let n = data.len() as u32;
    let c = cx.fb.stream(data.clone());
    d.add(0x103, V::S(vec![34713]));
    d.add(0x111, V::P(vec![c]));
    d.add(0x117, V::L(vec![n]));
    raw_dims(cx, d, &mut x, w, h, bits as u16);
    cfa(cx, d, &mut x);
    x.stored = Some(("CompressedRaw".into(), 1, data));
    cx.tag(["raw:lossless", "raw:lossy-steps", "raw:lossy-curve", "raw:lossy-0x49", "raw:lossless-12"][kind]);
    if kind == 4 {
        // not supported
        x.dtype = "CompressedRaw".into();
        return x;
    }
    // the last column is left out
    x.w = w as u32 - 1;
    x.pixels = Some((0..h).flat_map(|y| px[y * w..y * w + w - 1].to_vec()).map(|v| curve[v as usize] << (16 - bits)).collect());
    x.dtype = "Raw".into();
    if kind != 0 {
        x.attr("blacks", quad(&[curve[0] as u32]));
    }
    x
}

pub fn gen(rng: Rng) -> SynFile {
    let mut rng = rng;
    let be = rng.chance(1, 2);
    let mut cx = Cx::new(rng, be);
    cx.e.type_ = "Nef";
    cx.e.type_num = 3;
    cx.e.mime = "image/x-nikon-nef";
    cx.e.content = true;
    cx.tag(if be { "be" } else { "le" });
    let mut p = Parts::new("nef", "nef", be);
    if cx.rng.chance(1, 5) {
        p.ext = "nrw";
    }
    let mut thumbs = vec![];
    common(&mut cx, &mut p);
    p.ifd0.add(0x10f, V::s(*cx.rng.clone().pick(&["NIKON CORPORATION", "NIKON"])));
    let mut id = 0x20000;
    // its raw data is packed, whatever it says
    let d100 = cx.rng.chance(1, 12);
    if d100 {
        p.ifd0.add(0x110, V::s("NIKON D100 "));
        id = 0x20004;
    } else if cx.rng.chance(5, 6) {
        let (mut m, mut i) = *cx.rng.pick(mats::NIKON);
        while m == "NIKON D100 " {
            (m, i) = *cx.rng.pick(mats::NIKON);
        }
        p.ifd0.add(if cx.rng.chance(4, 5) { 0x110 } else { 0xc614 }, V::s(m));
        id = i;
    } else {
        p.ifd0.add(0x110, V::s("NIKON Z99"));
    }
    cx.e.type_id = Some(id);
    let noted = cx.rng.chance(5, 6);
    let mut note = Ifd::new();
    if noted {
        for _ in 0..cx.rng.us(5) {
            let t = *cx.rng.pick(&[0x1u16, 0x2, 0x3, 0x5, 0x6, 0x7, 0x8, 0x9, 0x1d, 0x84, 0xa7, 0xb0]);
            let v = any_value(&mut cx.rng);
            note.add(t, v);
        }
        if cx.rng.chance(1, 3) {
            note.add(4, V::s(*cx.rng.clone().pick(&["RAW    ", "NRW   "])));
        }
    }
    let mut d = Ifd::new();
    d.add(0xfe, V::L(vec![0]));
    let kind = if d100 { 9 } else { cx.rng.us(6) };
    let mut x = match kind {
        9 => {
            let mut x = ExpRaw::default();
            let (w, h) = (*cx.rng.pick(&[10usize, 20, 40, 50, 60]), cx.rng.range(1, 30) as usize);
            let px = enc::pixels(&mut cx.rng, w * h, 12);
            let data = enc::pack12be(&px, w, true);
            let n = data.len() as u32;
            let c = cx.fb.stream(data.clone());
            d.add(0x103, V::S(vec![34713]));
            d.add(0x111, V::P(vec![c]));
            d.add(0x117, V::L(vec![n]));
            // lines are six pixels longer than the image
            raw_dims(&mut cx, &mut d, &mut x, w - 6, h, 12);
            cfa(&mut cx, &mut d, &mut x);
            x.stored = Some(("CompressedRaw".into(), 1, data));
            x.pixels = Some(px);
            x.dtype = "Raw".into();
            cx.tag("raw:d100");
            x
        }
        0 | 1 => {
            let o = dng::RawOpts { ljpeg: false, tiles: false, bits: &[12, 14, 16, 12], dng: false, data_be: None };
            dng::tiff_raw(&mut cx, &mut d, &o)
        }
        2 => {
            let mut x = ExpRaw::default();
            let (w, h) = ((cx.rng.range(1, 8) * 10) as usize, cx.rng.range(1, 40) as usize);
            let px = enc::pixels(&mut cx.rng, w * h, 12);
            let data = enc::pack12be(&px, w, true);
            let n = data.len() as u32;
            let c = cx.fb.blob(data);
            d.add(0x103, V::S(vec![32769]));
            d.add(0x111, V::P(vec![c]));
            d.add(0x117, V::L(vec![n]));
            raw_dims(&mut cx, &mut d, &mut x, w, h, 12);
            cfa(&mut cx, &mut d, &mut x);
            x.stored = Some(("Raw".into(), 2, u16le(&px)));
            x.pixels = Some(px);
            x.uncompressed = true;
            x.dtype = "Raw".into();
            cx.tag("raw:packed");
            x
        }
        _ if noted => quantized(&mut cx, &mut d, &mut note),
        _ => {
            // without the table there is no decoding
            let mut tmp = Ifd::new();
            let mut x = quantized(&mut cx, &mut d, &mut tmp);
            x.w = x.stored_dim.unwrap().0;
            x.pixels = None;
            x.dtype = "CompressedRaw".into();
            x.attr("blacks", quad(&[0]));
            cx.tag("raw:no-table");
            x
        }
    };
    builtin_matrix(&mut x, mats::NIKON_M, id);
    x.attr("active", rect(0, 0, x.w, x.h));
    for k in ["neutral", "crop", "aspect"] {
        x.attr(k, "");
    }
    if cx.rng.chance(1, 6) {
        p.ifd0.add(0xfe, V::L(vec![0]));
        for (t, v) in d.e {
            p.ifd0.add(t, v);
        }
        cx.tag("primary-ifd0");
    } else {
        preview_ifd(&mut cx, &mut p.ifd0, &mut thumbs, Some(1));
        if cx.rng.chance(1, 2) {
            let mut s = Ifd::new();
            preview_ifd(&mut cx, &mut s, &mut thumbs, Some(1));
            p.subs.push(s);
        }
        let at = cx.rng.us(p.subs.len() + 1);
        p.subs.insert(at, d);
    }
    if noted {
        let (head, base): (Vec<u8>, Option<usize>) = match cx.rng.us(4) {
            0 => (vec![], None),
            1 => (b"Nikon\0\x01\0".to_vec(), Some(8)),
            _ => ([&b"Nikon\0\x02\x10\0\0"[..], if be { b"MM\0\x2a\0\0\0\x08" } else { b"II\x2a\0\x08\0\0\0" }].concat(), Some(10)),
        };
        let mut subs = vec![];
        if cx.rng.chance(2, 3) {
            let mut pv = Ifd::new();
            let (c, n) = loose_jpeg(&mut cx, &mut thumbs, true);
            pv.add(0x103, V::S(vec![6]));
            pv.add(0x201, V::P(vec![c]));
            pv.add(0x202, V::L(vec![n]));
            if base.is_some() {
                p.last = Some(c);
            }
            subs.push((0x11, pv, false));
            cx.tag("preview:makernote");
        }
        let r = &mut cx.rng;
        if r.chance(1, 2) {
            let v: Vec<u16> = (0..4).map(|_| r.below(300) as u16).collect();
            x.attr("blacks", format!("{v:?}"));
            note.add(0x3d, V::S(v));
        }
        if r.chance(1, 2) {
            let v: Vec<u16> = (0..4).map(|_| r.below(6000) as u16).collect();
            x.attr("crop", rect(v[0] as u32, v[1] as u32, v[2] as u32, v[3] as u32));
            note.add(0x45, V::S(v));
        }
        let p16 = |t: &mut [u8], v: u16, be: bool| t[..2].copy_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
        let q: Vec<u16> = (0..3).map(|_| r.range(1, 2000) as u16).collect();
        let f: Vec<f64> = q.iter().map(|v| *v as f64).collect();
        let gr = format!("{:?}", [f[1] / f[0], 1.0, f[1] / f[2], f64::NAN]);
        match r.us(7) {
            0 => {
                let g = *r.pick(&[1u32, 1, 2]);
                note.add(0x0c, V::R(vec![(q[0] as u32, 256), (q[2] as u32, 256), (g, 1), (1, 1)]));
                x.attr("neutral", format!("{:?}", [1.0 / (f[0] / 256.0), g as f64, 1.0 / (f[2] / 256.0), f64::NAN]));
                cx.tag("wb:levels");
            }
            1 => {
                let n = r.range(80, 200) as usize;
                let mut b = r.bytes(n);
                b[..4].copy_from_slice(b"0100");
                p16(&mut b[72..], q[0], be);
                p16(&mut b[74..], q[2], be);
                p16(&mut b[76..], q[1], be);
                note.add(0x97, V::U(b));
                x.attr("neutral", gr);
                cx.tag("wb:0100");
            }
            2 => {
                let n = r.range(26, 200) as usize;
                let mut b = r.bytes(n);
                b[..4].copy_from_slice(b"0103");
                p16(&mut b[20..], q[0], be);
                p16(&mut b[22..], q[1], be);
                p16(&mut b[24..], q[2], be);
                note.add(0x97, V::U(b));
                x.attr("neutral", gr);
                cx.tag("wb:0103");
            }
            3 => {
                let mut b = r.bytes(2560);
                p16(&mut b[1248..], q[0], true);
                p16(&mut b[1250..], q[2], true);
                note.add(0x14, V::U(b));
                x.attr("neutral", format!("{:?}", [256.0 / f[0], 1.0, 256.0 / f[2], f64::NAN]));
                cx.tag("wb:2560");
            }
            4 => {
                let old = r.chance(1, 2);
                let mut b = r.bytes(if old { 1600 } else { 90 });
                b[..8].copy_from_slice(if old { b"NRW 0100" } else { b"NRW 0101" });
                let at = if old { 1556 } else { 56 };
                for (i, v) in [q[0] as u32 * 256, q[1] as u32 * 512, q[1] as u32 * 512, q[2] as u32 * 256].iter().enumerate() {
                    b[at + 4 * i..][..4].copy_from_slice(&v.to_le_bytes());
                }
                note.add(0x14, V::U(b));
                x.attr("neutral", gr);
                cx.tag("wb:nrw");
            }
            _ => {}
        }
        p.note = Some(Note { head, base, dir: note, known: true, subs });
    }
    cx.e.thumbs = Some(thumbs);
    cx.e.raw = Some(x);
    assemble(cx, p)
}
