//! Canon CRW files (CIFF).
use super::crwtab::*;
use super::tb::*;
use super::*;

enum Data {
    Inline([u8; 8]),
    Bytes(Vec<u8>, Vec<Mark>),
}

fn p16(be: bool, v: u16) -> [u8; 2] {
    if be {
        v.to_be_bytes()
    } else {
        v.to_le_bytes()
    }
}
fn p32(be: bool, v: u32) -> [u8; 4] {
    if be {
        v.to_be_bytes()
    } else {
        v.to_le_bytes()
    }
}

/// A heap: the data of the records and the directory in any order, the location of the directory last.
fn heap(r: &mut Rng, be: bool, recs: Vec<(u16, Data)>, max_gap: usize) -> Data {
    let mut o: Vec<u8> = vec![];
    let mut marks: Vec<Mark> = vec![];
    let mark = |kind, off, len| Mark { kind, off, len, be };
    let mut order: Vec<usize> = (0..recs.len()).collect();
    r.shuffle(&mut order);
    // the directory is last, mostly
    let dir_at = if r.chance(3, 4) { order.len() } else { r.us(order.len() + 1) };
    let mut at: Vec<usize> = vec![0; recs.len()];
    let mut dir = 0;
    for k in 0..=order.len() {
        if k == dir_at {
            dir = o.len();
            o.resize(o.len() + 2 + recs.len() * 10, 0);
        }
        if k < order.len() {
            if let Data::Bytes(b, m) = &recs[order[k]].1 {
                if max_gap > 0 && r.chance(1, 4) {
                    let n = r.us(max_gap);
                    o.resize(o.len() + n, 0x5a);
                }
                at[order[k]] = o.len();
                marks.extend(m.iter().map(|m| Mark { off: m.off + o.len(), ..*m }));
                o.extend_from_slice(b);
            }
        }
    }
    o[dir..dir + 2].copy_from_slice(&p16(be, recs.len() as u16));
    marks.push(mark(MK::Count, dir, 2));
    for (i, (code, d)) in recs.iter().enumerate() {
        let e = dir + 2 + i * 10;
        o[e..e + 2].copy_from_slice(&p16(be, *code));
        marks.push(mark(MK::Tag, e, 2));
        match d {
            Data::Inline(b) => {
                o[e + 2..e + 10].copy_from_slice(b);
                marks.push(mark(MK::Num, e + 2, 4));
            }
            Data::Bytes(b, _) => {
                o[e + 2..e + 6].copy_from_slice(&p32(be, b.len() as u32));
                o[e + 6..e + 10].copy_from_slice(&p32(be, at[i] as u32));
                marks.push(mark(MK::Count, e + 2, 4));
                marks.push(mark(MK::Ptr, e + 6, 4));
            }
        }
    }
    marks.push(mark(MK::Ptr, o.len(), 4));
    o.extend_from_slice(&p32(be, dir as u32));
    Data::Bytes(o, marks)
}

fn tree(t: &[u8]) -> enc::Huff {
    let mut lens = vec![];
    for (i, n) in t[..16].iter().enumerate() {
        for _ in 0..*n {
            lens.push(i as u32 + 1);
        }
    }
    let syms = t[16..16 + lens.len()].to_vec();
    enc::Huff::from_lengths(&lens, &syms)
}

/// 10 bit samples, a multiple of 64 of them, `w` even.
fn encode(r: &mut Rng, px: &[u16], w: usize, table: usize) -> Vec<u8> {
    let first = tree(&FIRST[table]);
    let second = tree(&SECOND[table]);
    let mut o = enc::BitW::default();
    o.stuff = true;
    let mut base = [512i32; 2];
    let mut carry = 0;
    let mut col = 0;
    for block in px.chunks(64) {
        let mut d = [0i32; 64];
        for (i, v) in block.iter().enumerate() {
            if col % w == 0 {
                base = [512; 2];
            }
            d[i] = *v as i32 - base[i & 1];
            base[i & 1] = *v as i32;
            col += 1;
        }
        let d0 = d[0];
        d[0] -= carry;
        carry = d0;
        let put = |o: &mut enc::BitW, h: &enc::Huff, run: usize, d: i32| {
            let n = 32 - d.unsigned_abs().leading_zeros();
            h.put(o, run << 4 | n as usize);
            if n > 0 {
                o.put(if d < 0 { (d - 1 + (1 << n)) as u32 } else { d as u32 }, n);
            }
        };
        if d[0] == 0 && r.chance(1, 4) {
            first.put(&mut o, 0xff);
        } else {
            put(&mut o, &first, 0, d[0]);
        }
        let mut i = 1;
        while i < 64 {
            let run = d[i..].iter().take_while(|v| **v == 0).count();
            if i + run == 64 {
                second.put(&mut o, 0);
                break;
            }
            if run >= 16 {
                second.put(&mut o, 0xf0);
                i += 16;
                continue;
            }
            put(&mut o, &second, run, d[i + run]);
            i += run + 1;
        }
    }
    o.flush(r.chance(1, 2));
    o.out
}

/// "YYYY:MM:DD hh:mm:ss" of seconds since 1970.
fn date(t: u32) -> String {
    let (mut d, s) = (t / 86400, t % 86400);
    let mut y = 1970;
    let leap = |y: u32| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    while d >= 365 + leap(y) as u32 {
        d -= 365 + leap(y) as u32;
        y += 1;
    }
    let mut m = 0;
    let days = [31, 28 + leap(y) as u32, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    while d >= days[m] {
        d -= days[m];
        m += 1;
    }
    format!("{y:04}:{:02}:{:02} {:02}:{:02}:{:02}", m + 1, d + 1, s / 3600, s / 60 % 60, s % 60)
}

pub fn gen(rng: Rng) -> SynFile {
    let mut rng = rng;
    let be = rng.chance(1, 5);
    let mut tags: Vec<String> = vec![if be { "be" } else { "le" }.into()];
    let r = &mut rng;
    let words = |v: &[u16]| Data::Bytes(v.iter().flat_map(|v| p16(be, *v)).collect(), vec![Mark { kind: MK::Num, off: 0, len: 2, be }]);
    let longs = |v: &[u32]| Data::Bytes(v.iter().flat_map(|v| p32(be, *v)).collect(), vec![Mark { kind: MK::Num, off: 0, len: 4, be }]);
    let text = |s: &str| Data::Bytes([s.as_bytes(), b"\0"].concat(), vec![Mark { kind: MK::Text, off: 0, len: s.len() + 1, be }]);
    // a double word, in the record or not
    let long = |r: &mut Rng, code: u16, v: u32| -> (u16, Data) {
        if r.chance(1, 2) {
            let mut b = [0u8; 8];
            b[..4].copy_from_slice(&p32(be, v));
            b[4..].copy_from_slice(&r.bytes(4));
            (code | 0x4000, Data::Inline(b))
        } else {
            (code, longs(&[v]))
        }
    };
    let gap = *r.pick(&[0usize, 0, 20, 300]);
    let mut e = Expect { type_: "Crw", type_num: 2, mime: "image/x-canon-crw", content: !be, no_dirs: vec![2], ..Default::default() };
    let mut main = Ifd::new();
    let mut exif = Ifd::new();
    let mut root: Vec<(u16, Data)> = vec![];
    let mut props: Vec<(u16, Data)> = vec![];
    let mut info: Vec<(u16, Data)> = vec![];
    let mut camera: Vec<(u16, Data)> = vec![];

    // the raw image
    let bw = r.range(1, 6) as usize * 8;
    let bh = r.range(1, 6) as usize * 8;
    let (w, h) = (bw, bh);
    let table = r.us(3);
    let low = r.chance(1, 2);
    let mut px = enc::pixels(r, w * h, 10);
    if r.chance(1, 2) {
        // long runs
        let v = r.below(1024) as u16;
        for p in px.iter_mut() {
            if r.chance(9, 10) {
                *p = v;
            }
        }
    }
    let stream = encode(r, &px, w, table);
    let lb = if low { w * h / 4 } else { 0 };
    let mut raw: Vec<u8> = r.bytes(lb);
    if low {
        for (i, p) in px.iter_mut().enumerate() {
            *p = *p << 2 | (raw[i / 4] >> (i % 4 * 2) & 3) as u16;
        }
        tags.push("raw:low-bits".into());
    }
    raw.extend(r.bytes(514));
    if low {
        // the tell
        raw[lb + 512] = 0xff;
        raw[lb + 513] = 1;
    }
    raw.extend(&stream);
    // nothing but zeros after 0xff
    raw.extend_from_slice(&[0, 0, 0xff, 0]);
    let n = (0x4000 - 26usize).saturating_sub(raw.len()) + 4 + r.us(20);
    let fill = r.u8() & 0x7f;
    raw.resize(raw.len() + n, fill);
    let mut x = ExpRaw { w: w as u32, h: h as u32, bpc: 10, dtype: "Raw".into(), ..Default::default() };
    x.stored = Some(("CompressedRaw".into(), 1, raw.clone()));
    x.pixels = Some(px);
    let n = raw.len();
    root.push((0x2005, Data::Bytes(raw, vec![Mark { kind: MK::Stream, off: lb + 514, len: n - lb - 514, be }])));
    info.push(long(r, 0x1835, table as u32));
    if matches!(info[0].1, Data::Inline(_)) {
        // only looked for outside the record
        let v = [table as u32, r.u32(), 4660];
        info[0] = (0x1835, longs(&v));
    }
    let mut s: Vec<u16> = (0..r.range(9, 17)).map(|_| r.below(300) as u16).collect();
    s[1] = w as u16;
    s[2] = h as u16;
    s[7] = s[5] + r.range(1, 5000) as u16;
    s[8] = s[6] + r.range(1, 5000) as u16;
    let even = |a: u16, b: u16| (b - a) as u32 + ((b - a) as u32 & 1);
    x.attr("active", rect(s[5] as u32, s[6] as u32, even(s[5], s[7]), even(s[6], s[8])));
    info.push((0x1031, words(&s)));
    x.attr("photometric", "CFA");
    x.attr("mosaic", "RGGB");
    x.attr("crop", "");
    x.attr("aspect", "");

    // the image
    let dims = [r.range(1, 7000) as u32, r.range(1, 7000) as u32];
    let (angle, orient) = *r.pick(&[(0u32, 1u32), (90, 6), (180, 3), (270, 8), (45, 0)]);
    let depth = *r.pick(&[8u32, 10, 12]);
    props.push((0x1810, longs(&[dims[0], dims[1], 0x3f80_0000, angle, depth, 24, 1])));
    x.stored_dim = Some((dims[0], dims[1]));
    main.add(0x100, V::L(vec![dims[0]]));
    main.add(0x101, V::L(vec![dims[1]]));
    main.add(0x102, V::S(vec![depth as u16]));
    main.add(0x112, V::L(vec![orient]));

    // the camera
    let mut id = 0x10000;
    if r.chance(4, 5) {
        let (m, i) = *r.pick(models::CANON);
        let m = if r.chance(4, 5) {
            id = i;
            m
        } else {
            "Canon PowerShot N"
        };
        main.add(0x10f, V::s("Canon"));
        main.add(0x110, V::s(m));
        camera.push((0x80a, Data::Bytes([b"Canon\0", m.as_bytes(), b"\0"].concat(), vec![Mark { kind: MK::Text, off: 0, len: m.len() + 6, be }])));
    }
    if r.chance(2, 3) {
        let (n, i) = *r.pick(models::CANON_IDS);
        if r.chance(1, 6) {
            info.push(long(r, 0x1834, 0x0ff0_0000));
        } else {
            id = i;
            info.push(long(r, 0x1834, n));
        }
    }
    e.type_id = Some(id);
    let mat = mats::CANON_M.iter().find(|m| m.0 == id);
    x.attr("blacks", quad(&[mat.map(|m| m.1 as u32).unwrap_or(0)]));
    match mat {
        Some(m) if m.2 != 0 => x.attr("whites", quad(&[m.2 as u32])),
        // the library does not count the low bits
        _ if low => {}
        _ => x.attr("whites", quad(&[1023])),
    }
    tiffs::builtin_matrix(&mut x, mats::CANON_M, id);

    // white balance
    x.attr("neutral", "");
    let nz = |r: &mut Rng, n: usize| -> Vec<u16> { (0..n).map(|_| r.range(1, 4000) as u16).collect() };
    let mut wb: Option<[f64; 4]> = None;
    let mut shot = nz(r, 16);
    if r.chance(1, 3) {
        let t = nz(r, 40);
        let i = r.below(10) as u16;
        shot[7] = i;
        let k = 1 + 4 * [0usize, 1, 3, 4, 5, 6, 7, 0, 2, 8][i as usize];
        wb = Some([t[k + 1] as f64 / t[k] as f64, 1.0, t[k + 1] as f64 / t[k + 3] as f64, f64::NAN]);
        info.push((0x10a9, words(&t)));
        info.push((0x102a, words(&shot)));
    } else if r.chance(1, 2) {
        info.push((0x102a, words(&shot)));
    }
    if r.chance(1, 3) {
        let v;
        if r.chance(1, 2) {
            v = nz(r, 384);
            let f = |i: usize| 1024.0 / v[36 + i] as f64;
            let g = (f(1) + f(2)) / 2.0;
            wb = Some([g / f(0), 1.0, g / f(3), f64::NAN]);
        } else {
            let keyed = [0x12, 0x17, 0x6b, 0x6c].contains(&(id & 0xffff));
            let mut t = nz(r, 400 + r.clone().us(100));
            let at = if keyed { 48 } else { 60 };
            let c = nz(r, 3);
            wb = Some([c[0] as f64 / c[1] as f64, 1.0, c[0] as f64 / c[2] as f64, f64::NAN]);
            let k = if keyed { [0x410, 0x45f3, 0x410] } else { [0, 0, 0] };
            for i in 0..3 {
                t[at + i] = c[i] ^ k[i];
            }
            v = t;
        }
        info.push((0x32, words(&v)));
    }
    if r.chance(1, 4) {
        let mut v = nz(r, 80);
        if r.chance(1, 2) {
            v[0] = r.range(513, 4000) as u16;
            let g = v[60] as f64;
            wb = Some([g / v[62] as f64, g / v[63] as f64, 1.0, g / v[61] as f64]);
        } else {
            v[0] = r.range(1, 275) as u16;
            let g = (v[50] as f64 + v[53] as f64) / 2.0;
            wb = Some([g / v[51] as f64, 1.0, g / v[52] as f64, f64::NAN]);
        }
        info.push((0x102c, words(&v)));
    }
    if let Some(wb) = wb {
        x.attr("neutral", format!("{wb:?}"));
    }

    // what is told of the picture
    let mut units = None;
    if r.chance(2, 3) {
        let n = r.range(21, 45) as usize;
        let mut v = nz(r, n);
        v[1] = r.range(1, 2) as u16;
        v[4] = r.below(7) as u16;
        v[17] = r.below(7) as u16;
        v[20] = r.below(10) as u16;
        if v[1] == 1 {
            exif.add(0xa40c, V::S(vec![1]));
        }
        exif.add(0x9209, V::S(vec![[0, 0x19, 1, 0x41, 0, 0x41, 0][v[4] as usize]]));
        exif.add(0x9207, V::S(vec![[0, 3, 1, 5, 6, 2, 0][v[17] as usize]]));
        exif.add(0x8822, V::S(vec![[0, 2, 4, 3, 1, 5, 0, 0, 0, 0][v[20] as usize]]));
        units = v.get(25).copied();
        info.push((0x102d, words(&v)));
    }
    if r.chance(2, 3) {
        let v = nz(r, 4);
        if let Some(units) = units {
            exif.add(0x920a, V::R(vec![(v[1] as u32, units as u32)]));
        }
        if r.chance(1, 2) {
            info.push((0x1029, words(&v)));
        } else {
            props.push((0x1029, words(&v)));
        }
    }
    if r.chance(2, 3) {
        let t = r.u32();
        exif.add(0x9003, V::s(&date(t)));
        exif.add(0x9004, V::s(&date(t)));
        let d = long(r, 0x180e, t);
        if r.chance(1, 2) {
            info.push(d);
        } else {
            props.push(d);
        }
    }
    if r.chance(2, 3) {
        let s = ascii(r, 31);
        exif.add(0xa430, V::s(&s));
        camera.push((0x810, text(&s)));
    }
    if r.chance(2, 3) {
        let n = r.u32();
        exif.add(0xa431, V::s(&format!("{n:X}")));
        camera.push(long(r, 0x180b, n));
    }
    for (code, to) in [(0x80b, 1), (0x815, 0), (0x816, 0), (0x1804, 0), (0x1814, 2), (0x1818, 2), (0x183b, 1), (0x10b4, 2), (0x1033, 2)] {
        if r.chance(1, 3) {
            let n = r.us(20) * 4;
            let d = Data::Bytes(r.bytes(n), vec![]);
            match to {
                0 => props.push((code, d)),
                1 => camera.push((code, d)),
                _ => info.push((code, d)),
            }
        }
    }

    // the preview
    let mut thumbs = vec![];
    if r.chance(4, 5) {
        let (tw, th) = jpeg_dims(r);
        let body = super::body_len(r, 300);
        let j = enc::jpeg(r, tw, th, body);
        root.push((0x2007, Data::Bytes(j.clone(), vec![Mark { kind: MK::Stream, off: 0, len: j.len(), be: true }])));
        thumbs.push(ExpThumb { dim: tw.max(th), w: tw, h: th, fmt: "Jpeg", data: j });
        tags.push("preview:jpeg".into());
    }
    if r.chance(1, 2) {
        let j = enc::jpeg(r, 160, 120, 40);
        root.push((0x2008, Data::Bytes(j, vec![])));
    }
    e.thumbs = Some(thumbs);
    e.raw = Some(x);

    for d in [&mut props, &mut info, &mut camera] {
        r.shuffle(d);
    }
    let c = heap(r, be, camera, gap.min(20));
    let i = heap(r, be, info, gap.min(20));
    props.push((0x2807, c));
    props.push((0x300b, i));
    let p = heap(r, be, props, gap);
    root.push((0x300a, p));
    if r.chance(1, 3) {
        root.push((1, Data::Bytes(vec![0; 30], vec![])));
    }
    r.shuffle(&mut root);
    let Data::Bytes(body, marks) = heap(r, be, root, gap) else { unreachable!() };
    let mut o = if be { b"MM".to_vec() } else { b"II".to_vec() };
    o.extend_from_slice(&p32(be, 26));
    o.extend_from_slice(b"HEAPCCDR");
    o.extend_from_slice(&p32(be, 0x10002));
    o.extend_from_slice(&[0; 8]);
    let mut ms = vec![Mark { kind: MK::Head, off: 0, len: 18, be }, Mark { kind: MK::Ptr, off: 2, len: 4, be }];
    ms.extend(marks.into_iter().map(|m| Mark { off: m.off + o.len(), ..m }));
    o.extend_from_slice(&body);
    // nothing here points anywhere
    let mut fb = Fb::new(be, Rng::new(0));
    let hd = fb.head(vec![]);
    let built = fb.build(hd, None, false, 0);
    expect_meta(&mut e, &[("Exif.Image", &main, tag_name as Namer), ("Exif.Photo", &exif, tag_name)], &built, 0);
    expect_dir(&mut e, 1, &exif);
    SynFile { fmt: "crw", ext: "crw", bytes: o, marks: ms, exp: e, tags }
}
