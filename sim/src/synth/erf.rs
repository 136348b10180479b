//! Epson ERF files.
use super::tb::*;
use super::tiffs::*;
use super::*;

pub fn gen(rng: Rng) -> SynFile {
    let mut rng = rng;
    let be = rng.chance(1, 3);
    let mut cx = Cx::new(rng, be);
    cx.e.type_ = "Erf";
    cx.e.type_num = 9;
    cx.e.mime = "image/x-epson-erf";
    cx.e.content = true;
    cx.tag(if be { "be" } else { "le" });
    let mut p = Parts::new("erf", "erf", be);
    let mut thumbs = vec![];
    common(&mut cx, &mut p);
    p.ifd0.add(0x10f, V::s("SEIKO EPSON CORP."));
    let mut id = 0x50000;
    if cx.rng.chance(5, 6) {
        let (m, i) = *cx.rng.pick(mats::EPSON);
        p.ifd0.add(if cx.rng.chance(4, 5) { 0x110 } else { 0xc614 }, V::s(m));
        id = i;
    } else {
        p.ifd0.add(0x110, V::s("R-D9"));
    }
    cx.e.type_id = Some(id);
    let mut d = Ifd::new();
    d.add(0xfe, V::L(vec![0]));
    let o = dng::RawOpts { ljpeg: false, tiles: false, bits: &[12, 14, 16, 12], dng: false, data_be: None };
    let mut x = dng::tiff_raw(&mut cx, &mut d, &o);
    builtin_matrix(&mut x, mats::EPSON_M, id);
    for k in ["active", "neutral", "crop", "aspect"] {
        x.attr(k, "");
    }
    if cx.rng.chance(1, 5) {
        p.ifd0.add(0xfe, V::L(vec![0]));
        for (t, v) in d.e {
            p.ifd0.add(t, v);
        }
        cx.tag("primary-ifd0");
    } else {
        preview_ifd(&mut cx, &mut p.ifd0, &mut thumbs, Some(1));
        p.subs.push(d);
    }
    if cx.rng.chance(5, 6) {
        let mut note = Ifd::new();
        for _ in 0..cx.rng.us(5) {
            let t = *cx.rng.pick(&[0x200u16, 0x201, 0x202, 0x203, 0x204, 0x207, 0x208, 0x209, 0x20b, 0xf00]);
            let v = any_value(&mut cx.rng);
            note.add(t, v);
        }
        if cx.rng.chance(2, 3) {
            let body = super::body_len(&mut cx.rng, 200);
            let mut j = enc::jpeg(&mut cx.rng, 640, 424, body);
            let mut raw = j.clone();
            raw[0] = *cx.rng.pick(&[0xeeu8, 0xff]);
            j[0] = 0xff;
            note.add(0x280, V::U(raw));
            thumbs.push(ExpThumb { dim: 640, w: 640, h: 424, fmt: "Jpeg", data: j });
            cx.tag("preview:makernote");
        }
        let r = &mut cx.rng;
        if r.chance(2, 3) {
            let v: Vec<u16> = (0..4).map(|_| r.below(4000) as u16).collect();
            x.attr("active", rect(v[0] as u32, v[1] as u32, v[2] as u32, v[3] as u32));
            note.add(0x400, if r.chance(1, 2) { V::U(v.iter().flat_map(|v| if be { v.to_be_bytes() } else { v.to_le_bytes() }).collect()) } else { V::S(v) });
        }
        if r.chance(2, 3) {
            let v: Vec<u16> = (0..4).map(|_| r.below(300) as u16).collect();
            x.attr("blacks", format!("{v:?}"));
            note.add(0x401, V::S(v));
        }
        if r.chance(2, 3) {
            let v: Vec<u16> = (0..128).map(|_| r.range(1, 9000) as u16).collect();
            // from dcraw
            x.attr("neutral", format!("{:?}", [65536.0 / (v[24] as f64 * 508.0 * 1.078), 1.0, 65536.0 / (v[25] as f64 * 382.0 * 1.173), f64::NAN]));
            note.add(0xe80, V::S(v));
        }
        p.note = Some(Note { head: b"EPSON\0\x01\0".to_vec(), base: None, dir: note, known: true, subs: vec![] });
    }
    cx.e.thumbs = Some(thumbs);
    cx.e.raw = Some(x);
    assemble(cx, p)
}
