//! Pentax PEF files.
use super::tb::*;
use super::tiffs::*;
use super::*;

const LEGACY: &[(u32, u8)] = &[(2, 3), (2, 4), (3, 2), (3, 5), (3, 1), (4, 6), (5, 0), (6, 7), (7, 8), (8, 9), (9, 10), (10, 11), (10, 12)];

fn encode(px: &[u16], w: usize, h: usize, huff: &enc::Huff) -> Vec<u8> {
    let mut o = enc::BitW::default();
    let mut up = [[0i32; 2]; 2];
    for y in 0..h {
        let mut left = up[y & 1];
        for x in 0..w {
            let v = px[y * w + x] as i32;
            let d = v - left[x & 1];
            left[x & 1] = v;
            if x < 2 {
                up[y & 1][x] = v;
            }
            let n = 32 - d.unsigned_abs().leading_zeros();
            huff.put(&mut o, n as usize);
            if n > 0 {
                o.put(if d < 0 { (d - 1 + (1 << n)) as u32 } else { d as u32 }, n);
            }
        }
    }
    o.flush(false);
    o.out
}

pub fn gen(rng: Rng) -> SynFile {
    let mut rng = rng;
    let be = rng.chance(3, 4);
    let mut cx = Cx::new(rng, be);
    cx.e.type_ = "Pef";
    cx.e.type_num = 8;
    cx.e.mime = "image/x-pentax-pef";
    cx.tag(if be { "be" } else { "le" });
    let mut p = Parts::new("pef", "pef", be);
    let mut thumbs = vec![];
    common(&mut cx, &mut p);
    cx.e.content = cx.rng.chance(2, 3);
    p.ifd0.add(0x10f, V::s(if cx.e.content { "PENTAX Corporation " } else { "RICOH IMAGING COMPANY, LTD.  " }));
    p.ifd0.add(0xfe, V::L(vec![0]));
    // the camera
    let noted = cx.rng.chance(4, 5);
    let mut note = Ifd::new();
    let mut id = 0x40000;
    let (model, mid) = *cx.rng.pick(models::PENTAX);
    if cx.rng.chance(4, 5) {
        p.ifd0.add(if cx.rng.chance(4, 5) { 0x110 } else { 0xc614 }, V::s(model));
        id = mid;
    }
    if noted {
        for _ in 0..cx.rng.us(5) {
            let t = *cx.rng.pick(&[0u16, 1, 6, 8, 0xc, 0xd, 0x12, 0x13, 0x14, 0x19, 0x3f]);
            let v = any_value(&mut cx.rng);
            note.add(t, v);
        }
        match cx.rng.us(4) {
            0 => {
                // an unknown one; the directory's model does not count
                note.add(5, V::L(vec![0x10]));
                id = 0x40000;
            }
            1 | 2 => {
                let (n, i) = *cx.rng.pick(models::PENTAX_IDS);
                note.add(5, V::L(vec![n]));
                id = i;
            }
            _ => {}
        }
    }
    cx.e.type_id = Some(id);
    // raw image
    let mut x = match cx.rng.us(5) {
        0 => {
            let o = dng::RawOpts { ljpeg: false, tiles: false, bits: &[12, 14, 16, 12], dng: false, data_be: None };
            dng::tiff_raw(&mut cx, &mut p.ifd0, &o)
        }
        1 => {
            let mut x = ExpRaw::default();
            let (w, h) = ((cx.rng.range(1, 40) * 2) as usize, cx.rng.range(1, 40) as usize);
            let px = enc::pixels(&mut cx.rng, w * h, 12);
            let data = enc::pack12be(&px, w, false);
            let n = data.len() as u32;
            let c = cx.fb.blob(data);
            p.ifd0.add(0x103, V::S(vec![32773]));
            p.ifd0.add(0x111, V::P(vec![c]));
            p.ifd0.add(0x117, V::L(vec![n]));
            raw_dims(&mut cx, &mut p.ifd0, &mut x, w, h, 12);
            cfa(&mut cx, &mut p.ifd0, &mut x);
            x.stored = Some(("Raw".into(), 2, u16le(&px)));
            x.pixels = Some(px);
            x.uncompressed = true;
            x.dtype = "Raw".into();
            cx.tag("raw:packed");
            x
        }
        _ => {
            let mut x = ExpRaw::default();
            let (w, h) = ((cx.rng.range(1, 40) * 2) as usize, cx.rng.range(1, 40) as usize);
            let bits = *cx.rng.pick(&[12u32, 12, 14]);
            let px = enc::pixels(&mut cx.rng, w * h, bits);
            let custom = noted && (bits == 14 || cx.rng.chance(1, 2));
            let bits = if custom { bits } else { 12 };
            let px: Vec<u16> = px.iter().map(|v| v & ((1 << bits) - 1)).collect();
            let huff = if custom {
                let n = cx.rng.range(bits as u64 + 1, 15) as usize;
                let syms: Vec<u8> = (0..n as u8).collect();
                let hf = enc::Huff::random(&mut cx.rng, &syms, 12);
                let mut t = vec![];
                let p16 = |t: &mut Vec<u8>, v: u16| t.extend_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
                p16(&mut t, ((n + 4) & 0xf) as u16);
                t.extend_from_slice(&[0; 12]);
                for s in 0..n {
                    let (c, l) = hf.code[s];
                    p16(&mut t, (c << (12 - l)) as u16);
                }
                for s in 0..n {
                    t.push(hf.code[s].1 as u8);
                }
                if cx.rng.chance(1, 2) {
                    t.extend_from_slice(&[0, 0]);
                }
                note.add(0x220, V::U(t));
                cx.tag("raw:huffman-custom");
                hf
            } else {
                cx.tag("raw:huffman-legacy");
                enc::Huff::from_lengths(&LEGACY.iter().map(|x| x.0).collect::<Vec<_>>(), &LEGACY.iter().map(|x| x.1).collect::<Vec<_>>())
            };
            let data = encode(&px, w, h, &huff);
            let n = data.len() as u32;
            let c = cx.fb.stream(data.clone());
            p.ifd0.add(0x103, V::S(vec![65535]));
            p.ifd0.add(0x111, V::P(vec![c]));
            p.ifd0.add(0x117, V::L(vec![n]));
            raw_dims(&mut cx, &mut p.ifd0, &mut x, w, h, bits as u16);
            cfa(&mut cx, &mut p.ifd0, &mut x);
            x.stored = Some(("CompressedRaw".into(), 1, data));
            x.pixels = Some(px);
            x.dtype = "Raw".into();
            x
        }
    };
    chain(&mut cx, &mut p, "other", 2, &mut thumbs);
    builtin_matrix(&mut x, mats::PENTAX_M, id);
    x.attr("neutral", "");
    x.attr("crop", "");
    x.attr("aspect", "");
    if noted {
        let r = &mut cx.rng;
        x.attr("active", rect(0, 0, x.w, x.h));
        if r.chance(1, 2) {
            let v: Vec<u16> = (0..4).map(|_| r.below(200) as u16).collect();
            note.add(0x38, V::S(v[..2].to_vec()));
            note.add(0x39, V::S(v[2..].to_vec()));
            x.attr("crop", rect(v[0] as u32, v[1] as u32, v[2] as u32, v[3] as u32));
        }
        if r.chance(1, 2) {
            let a = r.below(5) as u8;
            note.add(0x80, V::B(vec![a]));
            x.attr("aspect", *["4/3", "3/2", "16/9", "1/1", ""].get(a as usize).unwrap());
        }
        let mut b0 = 0;
        if r.chance(1, 2) {
            let z = r.chance(1, 4);
            let b: Vec<u16> = (0..4).map(|_| if z { 0 } else { r.range(1, 300) as u16 }).collect();
            b0 = b[0];
            x.attr("blacks", format!("{b:?}"));
            note.add(0x200, V::S(b));
        }
        if r.chance(1, 2) {
            let w = r.range(3000, 16000) as u32;
            x.attr("whites", quad(&[w]));
            note.add(0x7e, V::L(vec![w]));
        } else if let Some(m) = builtin(mats::PENTAX_M, id) {
            if m.2 != 0 {
                x.attr("whites", quad(&[m.2 as u32]));
            }
            if b0 == 0 {
                x.attr("blacks", quad(&[m.1 as u32]));
            }
        }
        if r.chance(2, 3) {
            let v: Vec<u16> = (0..4).map(|_| r.range(1, 9000) as u16).collect();
            let g = v[1] as f64;
            x.attr("neutral", format!("{:?}", [g / v[0] as f64, 1.0, g / v[3] as f64, f64::NAN]));
            note.add(0x201, V::S(v));
        }
        let own = r.chance(1, 2);
        if r.chance(2, 3) {
            let (c, n) = loose_jpeg(&mut cx, &mut thumbs, true);
            note.add(2, V::S(vec![640, 480]));
            note.add(3, V::L(vec![n]));
            note.add(4, V::P(vec![c]));
            if own {
                // offsets count forward from the maker note
                p.last = Some(c);
            }
            cx.tag("preview:makernote");
        }
        p.note = Some(if own {
            Note { head: if be { b"PENTAX \0MM".to_vec() } else { b"PENTAX \0II".to_vec() }, base: Some(0), dir: note, known: true, subs: vec![] }
        } else {
            Note { head: if be { b"AOC\0MM".to_vec() } else { b"AOC\0II".to_vec() }, base: None, dir: note, known: true, subs: vec![] }
        });
    }
    cx.e.thumbs = Some(thumbs);
    cx.e.raw = Some(x);
    assemble(cx, p)
}
