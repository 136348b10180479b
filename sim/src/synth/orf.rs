//! Olympus ORF files.
use super::tb::*;
use super::tiffs::*;
use super::*;

/// The vendor's compression.
pub fn compress(px: &[u16], w: usize, h: usize, junk: &[u8]) -> Vec<u8> {
    let mut o = enc::BitW::default();
    for y in 0..h {
        let mut ac = [[0i32; 3]; 2];
        for x in 0..w {
            let p = x & 1;
            let i = if ac[p][2] < 3 { 2 } else { 0 };
            let mut nbits = 2 + i;
            while (nbits + i) < 16 && (ac[p][0] as u16) >> (nbits + i) != 0 {
                nbits += 1;
            }
            let at = |yy: usize, xx: usize| px[yy * w + xx] as i32;
            let pred = match (y < 2, x < 2) {
                (true, true) => 0,
                (true, false) => at(y, x - 2),
                (false, true) => at(y - 2, x),
                _ => {
                    let (l, n, nw) = (at(y, x - 2), at(y - 2, x), at(y - 2, x - 2));
                    if (l < nw && nw < n) || (n < nw && nw < l) {
                        if (l - nw).abs() > 32 || (n - nw).abs() > 32 {
                            l + n - nw
                        } else {
                            (l + n) >> 1
                        }
                    } else if (l - nw).abs() > (n - nw).abs() {
                        l
                    } else {
                        n
                    }
                }
            };
            let v = at(y, x) - pred;
            let (low, diff) = (v & 3, v >> 2);
            let t = diff - ac[p][1];
            let (sign, a0) = if t >= 0 { (0, t) } else { (1, !t) };
            let high = a0 >> nbits;
            o.put(sign, 1);
            o.put(low as u32, 2);
            if high < 12 {
                o.put(1, high as u32 + 1);
            } else {
                o.put(0, 12);
                // one bit of it counts for nothing
                o.put((high as u32) << 1 | (low as u32 & 1), 16 - nbits);
            }
            o.put((a0 & ((1 << nbits) - 1)) as u32, nbits);
            ac[p][0] = a0;
            ac[p][1] = (diff * 3 + ac[p][1]) >> 5;
            ac[p][2] = if a0 > 16 { 0 } else { ac[p][2] + 1 };
        }
    }
    o.flush(false);
    let mut v = junk.to_vec();
    v.extend(o.out);
    v
}

fn msb32(px: &[u16]) -> Vec<u8> {
    let mut o = vec![];
    for c in enc::pack12be(px, px.len(), false).chunks(4) {
        o.extend(c.iter().rev());
    }
    o
}

/// The raw image in its directory.
fn raw(cx: &mut Cx, d: &mut Ifd) -> ExpRaw {
    let mut x = ExpRaw::default();
    let kind = cx.rng.us(8);
    if kind == 0 {
        let o = dng::RawOpts { ljpeg: false, tiles: false, bits: &[16], dng: false, data_be: None };
        let mut x = dng::tiff_raw(cx, d, &o);
        x.bpc = 12;
        return x;
    }
    let (w, h, data, px);
    match kind {
        1 => {
            w = cx.rng.range(1, 8) as usize * 10;
            h = cx.rng.range(1, 30) as usize;
            px = enc::pixels(&mut cx.rng, w * h, 12);
            data = enc::pack12le(&px, w, true);
            cx.tag("raw:12-padded");
        }
        2 | 3 => {
            w = cx.rng.range(20, 60) as usize * 2;
            h = cx.rng.range(4096 * 2 / 3 / w as u64 + 3, 70) as usize;
            let mut v = enc::pixels(&mut cx.rng, w * h, 12);
            let half = h.div_ceil(2);
            let at = (((half * w * 3 / 2) >> 11) + 1) << 11;
            let n = h * w * 3 / 2;
            let mut b = vec![];
            for y in (0..h).step_by(2) {
                b.extend(enc::pack12be(&v[y * w..][..w], w, false));
            }
            while b.len() < at {
                b.push(cx.rng.u8());
            }
            for y in (1..h).step_by(2) {
                b.extend(enc::pack12be(&v[y * w..][..w], w, false));
            }
            b.truncate(n);
            // the last of the odd rows are not there
            for y in (1..h).step_by(2) {
                for i in 0..w {
                    let pair = at + ((y / 2) * w * 3 / 2) + i / 2 * 3;
                    if pair + 3 > n {
                        v[y * w + i] = 0;
                    }
                }
            }
            x.parallel = true;
            data = b;
            px = v;
            cx.tag("raw:12-interlaced");
        }
        4 if cx.rng.chance(1, 3) => {
            w = 3704 + 8 * cx.rng.us(20);
            h = 1 + cx.rng.us(2);
            px = enc::pixels(&mut cx.rng, w * h, 12);
            data = msb32(&px);
            cx.tag("raw:12-msb32");
        }
        _ => {
            w = cx.rng.range(1, 40) as usize * 2;
            let hh = cx.rng.range(1, 40) as usize;
            let mut v;
            let mut b;
            let mut hh = hh;
            loop {
                v = enc::pixels(&mut cx.rng, w * hh, 12);
                if cx.rng.chance(2, 3) {
                    let mut c = cx.rng.below(4096) as i32;
                    let step = cx.rng.range(1, 90) as i32;
                    for p in v.iter_mut() {
                        c = (c + cx.rng.below(2 * step as u64 + 1) as i32 - step).clamp(0, 4095);
                        *p = c as u16;
                    }
                }
                let j = cx.rng.bytes(7);
                b = compress(&v, w, hh, &j);
                let n = b.len();
                if n >= 8 && n < w * hh * 2 && n != hh * w * 3 / 2 && n != hh * (w * 12 / 8 + (w + 2) / 10) {
                    break;
                }
                hh += 1;
            }
            h = hh;
            px = v;
            data = b;
            cx.tag("raw:olympus");
        }
    }
    let n = data.len() as u32;
    let c = cx.fb.stream(data.clone());
    d.add(0x103, V::S(vec![1]));
    d.add(0x111, V::P(vec![c]));
    d.add(0x117, V::L(vec![n]));
    let bits = *cx.rng.pick(&[16u16, 16, 12]);
    raw_dims(cx, d, &mut x, w, h, bits);
    x.bpc = 12;
    cfa(cx, d, &mut x);
    x.stored = Some(("CompressedRaw".into(), 1, data));
    x.pixels = Some(px);
    x.dtype = "Raw".into();
    x
}

pub fn gen(rng: Rng) -> SynFile {
    let mut rng = rng;
    let be = rng.chance(1, 6);
    let mut cx = Cx::new(rng, be);
    cx.e.type_ = "Orf";
    cx.e.type_num = 7;
    cx.e.mime = "image/x-olympus-orf";
    cx.e.content = !be;
    cx.tag(if be { "be" } else { "le" });
    let mut p = Parts::new("orf", "orf", be);
    let s = cx.rng.chance(1, 3);
    p.head[..4].copy_from_slice(match (be, s) {
        (true, false) => b"MMOR",
        (true, true) => b"MMSR",
        (false, false) => b"IIRO",
        (false, true) => b"IIRS",
    });
    let mut thumbs = vec![];
    common(&mut cx, &mut p);
    p.ifd0.add(0x10f, V::s("OLYMPUS IMAGING CORP.  "));
    let mut id = 0x70000;
    if cx.rng.chance(5, 6) {
        let (m, i) = *cx.rng.pick(mats::OLYMPUS);
        p.ifd0.add(if cx.rng.chance(4, 5) { 0x110 } else { 0xc614 }, V::s(m));
        id = i;
    } else {
        p.ifd0.add(0x110, V::s("E-99"));
    }
    cx.e.type_id = Some(id);
    let mut d = std::mem::replace(&mut p.ifd0, Ifd::new());
    if cx.rng.chance(1, 3) {
        d.add(0xfe, V::L(vec![0]));
    }
    let mut x = raw(&mut cx, &mut d);
    p.ifd0 = d;
    builtin_matrix(&mut x, mats::OLYMPUS_M, id);
    x.attr("whites", quad(&[4095]));
    x.attr("photometric", "CFA");
    x.attr("active", rect(0, 0, x.w, x.h));
    for k in ["neutral", "crop", "aspect"] {
        x.attr(k, "");
    }
    chain(&mut cx, &mut p, "other", 2, &mut thumbs);
    if cx.rng.chance(5, 6) {
        let mut note = Ifd::new();
        for _ in 0..cx.rng.us(5) {
            let t = *cx.rng.pick(&[0x200u16, 0x201, 0x202, 0x203, 0x204, 0x207, 0x208, 0x209, 0x20b, 0xf00]);
            let v = any_value(&mut cx.rng);
            note.add(t, v);
        }
        let (head, base): (Vec<u8>, Option<usize>) = match cx.rng.us(4) {
            0 => (b"OLYMP\0\x01\0".to_vec(), None),
            1 => (b"OM SYSTEM\0\0\0II\x04\0".to_vec(), Some(0)),
            _ => (b"OLYMPUS\0II\x03\0".to_vec(), Some(0)),
        };
        let mut subs = vec![];
        let und = base.is_none() && cx.rng.chance(1, 2);
        if cx.rng.chance(1, 2) {
            // the small preview is in the entry itself
            let (w, h) = (160, 120);
            let body = super::body_len(&mut cx.rng, 100);
            let data = enc::jpeg(&mut cx.rng, w, h, body);
            note.add(0x100, V::U(data.clone()));
            let t = ExpThumb { dim: 160, w, h, fmt: "Jpeg", data };
            if thumbs.iter().any(|t| t.dim == 160) {
                cx.e.hidden.push(t);
            } else {
                thumbs.push(t);
            }
            cx.tag("preview:entry");
        }
        if cx.rng.chance(2, 3) {
            let mut cs = Ifd::new();
            cs.add(0, V::U(b"0100".to_vec()));
            for _ in 0..cx.rng.us(4) {
                let t = *cx.rng.pick(&[0x200u16, 0x300, 0x301, 0x501, 0x600]);
                let v = any_value(&mut cx.rng);
                cs.add(t, v);
            }
            match cx.rng.us(4) {
                0 => {}
                1 => {
                    cs.add(0x100, V::L(vec![0]));
                    cs.add(0x101, V::L(vec![1234]));
                    cs.add(0x102, V::L(vec![99]));
                }
                _ => {
                    let (c, n) = loose_jpeg(&mut cx, &mut thumbs, true);
                    cs.add(0x100, V::L(vec![1]));
                    cs.add(0x101, V::P(vec![c]));
                    cs.add(0x102, V::L(vec![n]));
                    if base.is_some() {
                        p.last = Some(c);
                    }
                    cx.tag("preview:settings");
                }
            }
            subs.push((0x2020, cs, und));
        }
        let r = &mut cx.rng;
        if r.chance(1, 3) {
            let v: Vec<u16> = (0..2).map(|_| r.range(1, 2000) as u16).collect();
            x.attr("neutral", format!("{:?}", [256.0 / v[0] as f64, 1.0, 256.0 / v[1] as f64, f64::NAN]));
            note.add(0x1017, V::S(vec![v[0], 64]));
            note.add(0x1018, V::S(vec![v[1], 64]));
        }
        if r.chance(2, 3) {
            let mut ip = Ifd::new();
            ip.add(0, V::U(b"0112".to_vec()));
            if r.chance(2, 3) {
                let v: Vec<u16> = (0..*r.pick(&[2, 4])).map(|_| r.range(1, 2000) as u16).collect();
                if !note.has(0x1017) {
                    x.attr("neutral", format!("{:?}", [256.0 / v[0] as f64, 1.0, 256.0 / v[1] as f64, f64::NAN]));
                }
                ip.add(0x100, V::S(v));
            }
            if r.chance(2, 3) {
                let v: Vec<u16> = (0..*r.pick(&[1, 4])).map(|_| r.below(300) as u16).collect();
                x.attr("blacks", quad(&v.iter().map(|v| *v as u32).collect::<Vec<_>>()));
                ip.add(0x600, V::S(v));
            }
            let mut area = (0, 0);
            if r.chance(1, 2) {
                let v: Vec<u32> = (0..4).map(|_| r.below(6000) as u32).collect();
                for (i, t) in [0x612u16, 0x613, 0x614, 0x615].iter().enumerate() {
                    ip.add(*t, if r.chance(1, 2) { V::S(vec![v[i] as u16]) } else { V::L(vec![v[i]]) });
                }
                x.attr("active", rect(v[0], v[1], v[2], v[3]));
                area = (v[0], v[1]);
            }
            if r.chance(1, 2) {
                let (a, b) = (r.below(3000) as u16, r.below(3000) as u16);
                let (c, e) = (a + r.below(3000) as u16, b + r.below(3000) as u16);
                ip.add(0x1113, V::S(vec![a, b, c, e]));
                x.attr("crop", rect(a as u32 + area.0, b as u32 + area.1, (c - a) as u32 + 1, (e - b) as u32 + 1));
            }
            subs.push((0x2040, ip, und));
        }
        for t in [0x2010u16, 0x2030, 0x2031, 0x2050, 0x3000] {
            if cx.rng.chance(1, 4) {
                subs.push((t, dng::small_dir(&mut cx.rng, 5), und));
            }
        }
        p.note = Some(Note { head, base, dir: note, known: true, subs });
    }
    cx.e.thumbs = Some(thumbs);
    cx.e.raw = Some(x);
    assemble(cx, p)
}
