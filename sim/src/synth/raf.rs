//! Fujifilm RAF files.
use super::tb::*;
use super::tiffs::*;
use super::*;

/// The pattern of the X-Trans sensors.
const XTRANS: [u8; 36] = [
    1, 1, 0, 1, 1, 2, //
    1, 1, 2, 1, 1, 0, //
    2, 0, 1, 0, 2, 1, //
    1, 1, 2, 1, 1, 0, //
    1, 1, 0, 1, 1, 2, //
    0, 2, 1, 2, 0, 1,
];

fn pair(hi: u32, lo: u32) -> u32 {
    hi << 16 | lo
}

pub fn gen(rng: Rng) -> SynFile {
    let mut r = rng;
    // the preview holds the directories
    let mut f;
    let mut jpeg: Option<(Vec<u8>, Vec<Mark>)> = None;
    if r.chance(5, 6) {
        let (mut w, mut h) = jpeg_dims(&mut r);
        if w == 160 || h == 160 {
            (w, h) = (w + 1, h + 1);
        }
        if r.chance(5, 6) {
            f = jpeg::exif_jpeg(r.fork(3), w, h, &[(b"FUJIFILM\x0c\0\0\0", Some(0))]);
        } else {
            let body = super::body_len(&mut r, 300);
            let b = enc::jpeg(&mut r, w, h, body);
            let n = b.len();
            let mut e = Expect { no_dirs: vec![0, 1, 2], meta_all: Some(vec![]), thumbs: Some(vec![]), ..Default::default() };
            e.absent = vec!["Exif.Image.Model".into()];
            e.orient = Some(0);
            f = SynFile { fmt: "raf", ext: "raf", bytes: b, marks: vec![Mark { kind: MK::Stream, off: 0, len: n, be: true }], exp: e, tags: vec!["preview:bare".into()] };
        }
        if let Some(t) = f.exp.thumbs.as_mut() {
            t.insert(0, ExpThumb { dim: w.max(h), w, h, fmt: "Jpeg", data: f.bytes.clone() });
        }
        jpeg = Some((std::mem::take(&mut f.bytes), std::mem::take(&mut f.marks)));
    } else {
        let mut e = Expect { no_dirs: vec![0, 1, 2], meta_all: Some(vec![]), thumbs: Some(vec![]), ..Default::default() };
        e.absent = vec!["Exif.Image.Model".into()];
        e.orient = Some(0);
        f = SynFile { fmt: "raf", ext: "raf", bytes: vec![], marks: vec![], exp: e, tags: vec!["no-preview".into()] };
    }
    f.fmt = "raf";
    f.ext = *r.pick(&["raf", "raf", "RAF"]);
    let e = &mut f.exp;
    e.type_ = "Raf";
    e.type_num = 13;
    e.mime = "image/x-fuji-raf";
    e.content = true;
    let (mut model, mut id) = *r.pick(mats::FUJI);
    if r.chance(1, 8) {
        (model, id) = ("FinePix None", 0xe0000);
    }
    e.type_id = Some(id);

    // the raw image
    let mut x = ExpRaw { dtype: "Raw".into(), ..Default::default() };
    let mut cfa: Vec<u8> = vec![0, 1, 1, 2];
    let mut pattern: Option<Vec<u8>> = None;
    match r.us(3) {
        0 => {
            let s = r.us(36);
            // any part of the plane
            cfa = (0..36).map(|i| XTRANS[(i / 6 + s / 6) % 6 * 6 + (i % 6 + s % 6) % 6]).collect();
            if r.chance(1, 2) {
                cfa = XTRANS.to_vec();
            }
            pattern = Some(cfa.clone());
            x.attr("mosaic", format!("NON_RGB22{cfa:?}"));
            f.tags.push("cfa:x-trans".into());
        }
        _ => {
            // four bytes are a number
            if model == "X10" || model == "XF1" || model == "X-S1" {
                cfa = vec![2, 1, 1, 0];
                x.attr("mosaic", "BGGR");
            } else {
                x.attr("mosaic", "RGGB");
            }
            f.tags.push("cfa:bayer".into());
        }
    }
    let compressed = r.chance(1, 2);
    let old = !compressed && r.chance(1, 3);
    let (w, h);
    let bits: u32;
    let mut data;
    if compressed {
        w = match r.us(4) {
            0 | 1 => 768,
            2 => 768 + 24 * r.range(1, 32) as usize,
            _ => 24 * r.range(32, 80) as usize,
        };
        h = if w <= 768 { 6 * r.range(1, 3) as usize } else { 6 };
        bits = *r.pick(&[14u32, 14, 14, 12, 16]);
        let max = (1i64 << bits) - 1;
        let mut noise = *r.pick(&[0u64, 1, 3, 20, 200]);
        let lossy = if bits < 16 && r.chance(1, 3) {
            let many = r.chance(1, 2);
            let top = *r.pick(&[0u64, 3, 10, 255]);
            let one = r.range(0, top) as u8;
            Some((0..w.div_ceil(768)).map(|_| (0..h / 6).map(|_| if many { r.range(0, top) as u8 } else { one }).collect()).collect::<Vec<Vec<u8>>>())
        } else {
            None
        };
        loop {
            let (a, b, c) = (r.range(0, max as u64) as i64, r.range(0, 8) as i64 - 4, r.range(0, 40) as i64 - 20);
            let odd = r.chance(1, 2);
            let px: Vec<u16> = (0..w * h)
                .map(|i| {
                    if odd && r.chance(1, 300) {
                        return r.range(0, max as u64) as u16;
                    }
                    (a + b * (i % w) as i64 + c * (i / w) as i64 + r.range(0, noise) as i64).clamp(0, max) as u16
                })
                .collect();
            let (d, out, esc) = rafz::compress(&mut r, &rafz::Image { w, h, bits, px: &px, cfa: &cfa, lossy: lossy.clone() });
            data = d;
            if data.len() < bits as usize * w * h / 8 {
                if esc > 0 {
                    f.tags.push("fuji:escape".into());
                }
                x.pixels = Some(out);
                break;
            }
            noise /= 4;
        }
        f.tags.push(format!("raw:fuji-{}{bits}", if lossy.is_some() { "lossy-" } else { "" }));
        if w > 768 {
            f.tags.push("raw:strips".into());
            x.parallel = true;
        }
        x.stored = Some(("CompressedRaw".into(), 1, data.clone()));
    } else {
        let kind = if old { 0 } else { r.us(4) };
        w = match kind {
            1 | 2 => 4 * r.range(1, 20) as usize,
            _ => r.range(1, 60) as usize,
        };
        h = r.range(1, 30) as usize;
        let px;
        match kind {
            0 => {
                bits = if old { 16 } else { *r.pick(&[12u32, 14, 16]) };
                px = enc::pixels(&mut r, w * h, bits);
                data = enc::raw16(&px, false);
                f.tags.push("raw:16".into());
            }
            1 => {
                bits = 12;
                px = enc::pixels(&mut r, w * h, bits);
                data = enc::pack12le(&px, w, false);
                f.tags.push("raw:packed12".into());
            }
            _ => {
                bits = 14;
                px = enc::pixels(&mut r, w * h, bits);
                let mut o = enc::BitW::default();
                for p in &px {
                    o.put(*p as u32, 14);
                }
                o.flush(false);
                data = o.out;
                data.resize(data.len().next_multiple_of(4), 0);
                // words, first byte last
                data.chunks_mut(4).for_each(|c| c.reverse());
                if data.len() == 2 * w * h {
                    // it would be taken for unpacked
                    data.extend_from_slice(&[0; 4]);
                }
                f.tags.push("raw:packed14".into());
            }
        }
        x.stored = Some(("Raw".into(), 2, u16le(&px)));
        x.pixels = Some(px);
        x.uncompressed = true;
    }
    x.w = w as u32;
    x.h = h as u32;
    x.stored_dim = Some((x.w, x.h));
    x.bpc = 16;
    x.attr("whites", quad(&[(1 << bits) - 1]));
    x.attr("photometric", "CFA");
    x.attr("blacks", quad(&[0]));
    x.attr("neutral", "");
    builtin_matrix(&mut x, mats::FUJI_M, id);

    // the container of the raw image
    let mut cfa_marks = vec![];
    let cfa_block = if old {
        let mut b = r.bytes(2048);
        // no container in there
        b[0] = 0;
        b[1] = 0;
        cfa_marks.push(Mark { kind: MK::Stream, off: 2048, len: data.len(), be: true });
        b.extend_from_slice(&data);
        b
    } else {
        let be = r.chance(1, 4);
        let mut fb = Fb::new(be, r.fork(8));
        let head = fb.head(tiff_head(be));
        let n = data.len();
        let c = fb.stream(data);
        let mut d = Ifd::new();
        d.add(0xf001, V::L(vec![w as u32]));
        d.add(0xf002, V::L(vec![h as u32]));
        d.add(0xf003, V::L(vec![bits]));
        d.add(0xf007, V::P(vec![c]));
        d.add(0xf008, V::L(vec![n as u32]));
        if r.chance(3, 4) {
            let k = *r.pick(&[1usize, 4, 4, 36]);
            let v: Vec<u32> = (0..k).map(|_| r.below(1025) as u32).collect();
            x.attr("blacks", quad(&v));
            d.add(0xf00a, V::L(v));
        }
        if r.chance(3, 4) {
            let v: Vec<u32> = (0..3).map(|_| r.range(1, 4000) as u32).collect();
            x.attr("neutral", format!("{:?}", [v[0] as f64 / v[1] as f64, 1.0, v[0] as f64 / v[2] as f64, f64::NAN]));
            d.add(0xf00e, V::L(v));
        }
        for t in [0xf004u16, 0xf005, 0xf006, 0xf009, 0xf00b, 0xf00c, 0xf00d, 0xf00f, 0xf010] {
            if r.chance(1, 4) {
                let v = any_value(&mut r);
                d.add(t, v);
            }
        }
        let (sub, _) = fb.ifd(&d, Base::File);
        let mut m = Ifd::new();
        m.add(0xf000, V::P(vec![sub]));
        if r.chance(1, 3) {
            let v = any_value(&mut r);
            m.add(0xf100, v);
        }
        let (main, _) = fb.ifd(&m, Base::File);
        fb.ptr((head.0, 4), main, Base::File, be);
        let gap = *r.pick(&[0usize, 0, 30]);
        let b = fb.build(head, Some(c), r.chance(3, 4), gap);
        f.exp.dumped.extend(b.dirs);
        cfa_marks = b.marks;
        b.bytes
    };

    // the table
    let mut t: Vec<(u16, Vec<u8>)> = vec![];
    let num = |v: u32| v.to_be_bytes().to_vec();
    let sensor = r.chance(3, 4);
    if sensor {
        t.push((0x100, num(pair(h as u32, w as u32))));
    }
    let (mut aw, mut ah) = (w as u32, h as u32);
    let mut active = None;
    if sensor && r.chance(3, 4) {
        (aw, ah) = (r.range(1, w as u64) as u32, r.range(1, h as u64) as u32);
    }
    if !sensor || r.chance(3, 4) {
        t.push((0x111, num(pair(ah, aw))));
        if r.chance(3, 4) {
            let (y, xx) = (r.below(h as u64 - ah as u64 + 1) as u32, r.below(w as u64 - aw as u64 + 1) as u32);
            t.push((0x110, num(pair(y, xx))));
            active = Some([xx, y, aw, ah]);
        }
    }
    x.attr("active", active.map(|a| rect(a[0], a[1], a[2], a[3])).unwrap_or_default());
    let mut area = active;
    if r.chance(1, 2) {
        let on = r.chance(1, 2);
        t.push((0x117, num(on as u32 | (r.u32() & 0xff00))));
        let c = [r.below(100) as u32, r.below(100) as u32, r.range(1, 4000) as u32, r.range(1, 4000) as u32];
        let (a, b) = (r.chance(5, 6), r.chance(5, 6));
        if a {
            t.push((0x118, num(pair(c[1], c[0]))));
        }
        if b {
            t.push((0x119, num(pair(c[3], c[2]))));
        }
        if on {
            area = (a && b).then_some(c);
        }
    }
    x.attr("crop", "");
    x.attr("aspect", "");
    if r.chance(3, 4) {
        let (aw, ah) = *r.pick(&[(3u32, 2u32), (16, 9), (1, 1), (4, 3), (2, 3), (65, 24)]);
        t.push((0x115, num(pair(ah, aw))));
        x.attr("aspect", format!("{aw}/{ah}"));
        if let Some([cx, cy, cw, ch]) = area {
            // the widest in the middle
            let ratio = aw as f64 / ah as f64;
            let (nw, nh) = if cw as f64 / ch as f64 > ratio { ((ch as f64 * ratio) as u32, ch) } else { (cw, (cw as f64 / ratio) as u32) };
            x.attr("crop", rect(cx + (cw - nw) / 2, cy + (ch - nh) / 2, nw, nh));
        }
    }
    t.push((0x130, num(r.u32() & !0x80000)));
    if let Some(p) = pattern {
        t.push((0x131, p.into_iter().rev().collect()));
    }
    if old {
        let v: Vec<u16> = (0..4).map(|_| r.range(1, 4000) as u16).collect();
        let mut b: Vec<u8> = v.iter().flat_map(|v| v.to_be_bytes()).collect();
        let n = 2 * r.us(3);
        b.extend(r.bytes(n));
        t.push((0x2ff0, b));
        x.attr("neutral", format!("{:?}", [v[0] as f64 / v[1] as f64, 1.0, v[0] as f64 / v[3] as f64, f64::NAN]));
        f.tags.push("raf:old".into());
    }
    x.attr("output", format!("{w}x{h}"));
    if r.chance(1, 2) {
        let mut v: Vec<u32> = vec![];
        for _ in 0..r.us(3) {
            v.push(w as u32 + r.below(100_000) as u32);
        }
        if r.chance(3, 4) && w > 1 {
            let o = (r.below(w as u64) as u32, r.range(1, 5000) as u32);
            v.push(o.0);
            v.push(o.1);
            x.attr("output", format!("{}x{}", o.0, o.1));
            let n = r.us(5);
            v.extend((0..n).map(|_| r.u32()));
        } else if v.len() == 1 {
            v.push(w as u32);
        }
        let mut b: Vec<u8> = v.iter().flat_map(|v| v.to_le_bytes()).collect();
        if r.chance(1, 4) {
            b.extend_from_slice(&[1, 2]);
        }
        if b.len() != 4 {
            t.push((0xc000, b));
        }
    }
    for k in [0x121u16, 0x200, 0x9650, 0x9200] {
        if r.chance(1, 3) {
            let n = *r.pick(&[4usize, 4, 8, 1, 0, 50]);
            t.push((k, r.bytes(n)));
        }
    }
    r.shuffle(&mut t);
    let mut meta: Vec<u8> = (t.len() as u32).to_be_bytes().to_vec();
    let mut meta_marks = vec![Mark { kind: MK::Count, off: 0, len: 4, be: true }];
    for (k, v) in &t {
        let at = meta.len();
        meta_marks.push(Mark { kind: MK::Tag, off: at, len: 2, be: true });
        meta_marks.push(Mark { kind: MK::Count, off: at + 2, len: 2, be: true });
        if !v.is_empty() {
            meta_marks.push(Mark { kind: MK::Num, off: at + 4, len: v.len().min(4), be: true });
        }
        meta.extend_from_slice(&k.to_be_bytes());
        meta.extend_from_slice(&(v.len() as u16).to_be_bytes());
        meta.extend_from_slice(v);
    }

    // the file
    let mut parts: Vec<(usize, Vec<u8>, Vec<Mark>)> = vec![(92, meta, meta_marks), (100, cfa_block, cfa_marks)];
    let first = jpeg.is_some() && r.chance(1, 2);
    if let Some((b, m)) = jpeg {
        parts.push((84, b, m));
    }
    r.shuffle(&mut parts);
    if r.chance(3, 4) {
        // the raw image is last, mostly
        parts.sort_by_key(|p| p.0 == 100);
    }
    let mut o = b"FUJIFILMCCD-RAW 0201FF383501".to_vec();
    let mut m = vec![Mark { kind: MK::Head, off: 0, len: 16, be: true }, Mark { kind: MK::Text, off: 28, len: 32, be: true }];
    o.extend_from_slice(model.as_bytes());
    o.resize(60, 0);
    o.extend_from_slice(b"0100");
    o.extend(r.bytes(20));
    assert_eq!(o.len(), 84);
    o.resize(108, 0);
    o.extend(r.bytes(12));
    for i in 0..6 {
        m.push(Mark { kind: if i % 2 == 0 { MK::Ptr } else { MK::Count }, off: 84 + i * 4, len: 4, be: true });
    }
    if first {
        parts.sort_by_key(|p| p.0 != 84);
        f.tags.push("raf:short-header".into());
    } else if r.chance(1, 3) {
        // the second table some cameras write
        let p = parts.iter().find(|p| p.0 == 92).unwrap();
        let p = (120, p.1.clone(), p.2.clone());
        parts.insert(r.us(parts.len()), p);
        o.resize(136, 0);
        f.tags.push("raf:second-table".into());
    } else {
        let extra = *r.pick(&[0u32, 0, 77]);
        for _ in 0..4 {
            o.extend_from_slice(&extra.to_be_bytes());
        }
    }
    for (dir, b, marks) in parts {
        if o.len() > 120 && r.chance(1, 3) {
            let n = r.us(40);
            o.extend(r.bytes(n));
        }
        let at = o.len();
        o[dir..dir + 4].copy_from_slice(&(at as u32).to_be_bytes());
        o[dir + 4..dir + 8].copy_from_slice(&(b.len() as u32).to_be_bytes());
        m.extend(marks.iter().map(|k| Mark { off: k.off + at, ..*k }));
        o.extend_from_slice(&b);
    }
    if r.chance(1, 4) {
        let n = r.us(40);
        o.extend(r.bytes(n));
    }
    f.exp.raw = Some(x);
    f.bytes = o;
    f.marks = m;
    f
}
