//! Sony ARW files.
use super::tb::*;
use super::tiffs::*;
use super::*;

/// Cameras with the aspect ratio in the enciphered settings, and where (from ExifTool).
const ASPECT: &[(u32, usize)] = &[
    (0x80037, 6444),
    (0x8001d, 6444),
    (0x80036, 6444),
    (0x8000a, 6444),
    (0x8000d, 6444),
    (0x8000e, 6444),
    (0x8000f, 6444),
    (0x8001e, 6444),
    (0x80024, 6444),
    (0x80025, 6444),
    (0x8001f, 6444),
    (0x80026, 6488),
    (0x80020, 6488),
    (0x8002d, 6488),
    (0x80030, 6488),
    (0x80033, 6488),
    (0x8002e, 6488),
    (0x80042, 6488),
    (0x8003c, 6488),
    (0x80038, 6488),
    (0x80054, 6488),
    (0x80041, 6488),
    (0x80040, 6488),
    (0x8002b, 6444),
    (0x80029, 6444),
    (0x80027, 6444),
    (0x80028, 6444),
    (0x80021, 6444),
    (0x80022, 6444),
    (0x8003a, 6444),
    (0x8003b, 6444),
    (0x80031, 6444),
    (0x80034, 6444),
    (0x80039, 6444),
    (0x8004a, 6284),
    (0x80046, 6284),
    (0x8004b, 6284),
    (0x80050, 6284),
    (0x8002f, 6284),
    (0x80032, 6284),
    (0x80048, 6284),
    (0x80035, 6284),
    (0x8004c, 6284),
    (0x80047, 6284),
    (0x8002a, 6284),
    (0x80023, 6284),
    (0x80044, 6284),
    (0x80049, 6284),
    (0x80045, 6284),
    (0x8004d, 6284),
    (0x8005e, 6284),
    (0x80051, 6284),
];

fn encipher(v: u8) -> u8 {
    if v >= 249 {
        v
    } else {
        ((v as u32 * v as u32 * v as u32) % 249) as u8
    }
}

/// The type id of the DSC-R1: its samples are big endian.
const R1: u32 = 0x8004e;

pub fn gen(rng: Rng) -> SynFile {
    let mut rng = rng;
    let be = rng.chance(1, 6);
    let mut cx = Cx::new(rng, be);
    cx.e.type_ = "Arw";
    cx.e.type_num = 5;
    cx.e.mime = "image/x-sony-arw";
    cx.e.content = true;
    cx.tag(if be { "be" } else { "le" });
    let mut p = Parts::new("arw", "arw", be);
    let mut thumbs = vec![];
    common(&mut cx, &mut p);
    if cx.rng.chance(1, 8) {
        p.ext = "sr2";
    }
    p.ifd0.add(0x10f, V::s(*cx.rng.clone().pick(&["SONY", "SONY           "])));
    // the camera
    let noted = cx.rng.chance(4, 5);
    let mut note = Ifd::new();
    let mut id = 0x80000;
    let (mut model, mut mid) = *cx.rng.pick(models::SONY);
    let a100 = cx.rng.chance(1, 8);
    while (model == "DSLR-A100") != a100 {
        (model, mid) = *cx.rng.pick(models::SONY);
    }
    if a100 || cx.rng.chance(4, 5) {
        p.ifd0.add(if a100 || mid == R1 || cx.rng.chance(4, 5) { 0x110 } else { 0xc614 }, V::s(model));
        id = mid;
    }
    if noted {
        for _ in 0..cx.rng.us(5) {
            let t = *cx.rng.pick(&[0x10u16, 0x102, 0x104, 0x112, 0x115, 0xb020, 0xb02b, 0xb040, 0x2001, 0xb000]);
            let v = any_value(&mut cx.rng);
            note.add(t, v);
        }
        match cx.rng.us(4) {
            0 if id != R1 => {
                note.add(0xb001, V::S(vec![9]));
                id = 0x80000;
            }
            1 | 2 => {
                let (n, i) = *cx.rng.pick(models::SONY_IDS);
                // the two agree about the one with its own storage
                if (i == R1) == (id == R1) {
                    note.add(0xb001, if cx.rng.chance(1, 2) { V::S(vec![n as u16]) } else { V::L(vec![n]) });
                    id = i;
                }
            }
            _ => {}
        }
    }
    cx.e.type_id = Some(id);
    if a100 {
        return gen_a100(cx, p, noted.then_some(note), id);
    }
    let mut d = Ifd::new();
    d.add(0xfe, V::L(vec![0]));
    let mut x = match cx.rng.us(3) {
        0 => {
            // the vendor's compression is not decoded
            let mut x = ExpRaw::default();
            let (w, h) = ((cx.rng.range(1, 20) * 2) as usize, cx.rng.range(1, 20) as usize);
            let n = cx.rng.us(w * h * 2) + 1;
            let data = cx.rng.bytes(n);
            let c = cx.fb.stream(data.clone());
            d.add(0x103, V::S(vec![32767]));
            d.add(0x111, V::P(vec![c]));
            d.add(0x117, V::L(vec![n as u32]));
            raw_dims(&mut cx, &mut d, &mut x, w, h, *Rng::new(n as u64).pick(&[8u16, 12, 14]));
            cfa(&mut cx, &mut d, &mut x);
            x.stored = Some(("CompressedRaw".into(), 1, data));
            x.dtype = "CompressedRaw".into();
            cx.tag("raw:arw");
            x
        }
        _ => {
            let o = dng::RawOpts { ljpeg: false, tiles: false, bits: &[12, 14, 16, 14], dng: false, data_be: (id == 0x8004e).then_some(true) };
            dng::tiff_raw(&mut cx, &mut d, &o)
        }
    };
    x.attr("active", rect(0, 0, x.w, x.h));
    builtin_matrix(&mut x, mats::SONY_M, id);
    x.attr("neutral", "");
    x.attr("crop", "");
    let mut aspect = "";
    if noted {
        let known = ASPECT.iter().find(|a| a.0 == id);
        if let (Some((_, at)), true) = (known, cx.rng.chance(2, 3)) {
            let k = cx.rng.below(6) as u8;
            let n = at + 1 + cx.rng.us(40);
            let mut v: Vec<u8> = cx.rng.bytes(n);
            v[*at] = encipher(k);
            note.add(0x2010, V::U(v));
            aspect = ["16/9", "4/3", "3/2", "1/1", "", ""][k as usize];
            cx.tag("aspect:2010");
        }
    }
    x.attr("aspect", aspect);
    {
        let r = &mut cx.rng;
        if r.chance(1, 2) {
            let v: Vec<u32> = (0..4).map(|_| r.below(6000) as u32).collect();
            d.add(0x74c7, if r.chance(1, 2) { V::L(vec![v[1], v[0]]) } else { V::S(vec![v[1] as u16, v[0] as u16]) });
            d.add(0x74c8, V::L(vec![v[2], v[3]]));
            x.attr("crop", rect(v[0], v[1], v[2], v[3]));
        }
        let m = builtin(mats::SONY_M, id);
        if r.chance(1, 2) {
            let v: Vec<u16> = (0..*r.pick(&[4usize, 4, 1])).map(|_| r.range(1, 600) as u16).collect();
            x.attr("blacks", quad(&v.iter().map(|x| *x as u32).collect::<Vec<_>>()));
            d.add(0x7310, V::S(v));
        } else if let Some(m) = m {
            x.attr("blacks", quad(&[m.1 as u32]));
        }
        if r.chance(1, 2) {
            let v: Vec<u16> = (0..*r.pick(&[3usize, 1, 4])).map(|_| r.range(3000, 16000) as u16).collect();
            x.attr("whites", quad(&v.iter().map(|x| *x as u32).collect::<Vec<_>>()));
            d.add(0xc61d, V::S(v));
        } else if let Some(m) = m {
            x.attr("whites", quad(&[m.2 as u32]));
        }
        if r.chance(2, 3) {
            let v: Vec<i16> = (0..4).map(|_| r.range(1, 9000) as i16).collect();
            let g = v[1] as f64;
            x.attr("neutral", format!("{:?}", [g / v[0] as f64, 1.0, g / v[3] as f64, f64::NAN]));
            d.add(0x7313, V::SS(v));
        }
    }
    if cx.rng.chance(1, 6) {
        // the raw image in the main directory
        p.ifd0.add(0xfe, V::L(vec![0]));
        for (t, v) in d.e {
            p.ifd0.add(t, v);
        }
        cx.tag("primary-ifd0");
    } else {
        if cx.rng.chance(5, 6) {
            preview_ifd(&mut cx, &mut p.ifd0, &mut thumbs, Some(1));
        } else {
            p.ifd0.add(0xfe, V::L(vec![1]));
        }
        p.subs.push(d);
    }
    if noted {
        let head: &[u8] = if cx.rng.chance(1, 2) { b"SONY DSC \0\0\0" } else { b"" };
        p.note = Some(Note { head: head.to_vec(), base: None, dir: note, known: true, subs: vec![] });
    }
    chain(&mut cx, &mut p, "other", 2, &mut thumbs);
    cx.e.thumbs = Some(thumbs);
    cx.e.raw = Some(x);
    assemble(cx, p)
}

/// The A100 has its raw image where the others have a directory, and a block as Minolta's.
fn gen_a100(mut cx: Cx, mut p: Parts, note: Option<Ifd>, id: u32) -> SynFile {
    let mut thumbs = vec![];
    let r = &mut cx.rng;
    let (w, h) = (r.range(1, 60) as usize, r.range(1, 40) as usize);
    let data = r.bytes(w * h * 2);
    let bpc = *r.pick(&[12u8, 12, 14, 16]);
    let mut x = ExpRaw { w: w as u32, h: h as u32, stored_dim: Some((w as u32, h as u32)), dtype: "CompressedRaw".into(), bpc: bpc as u16, ..Default::default() };
    x.stored = Some(("CompressedRaw".into(), 1, data.clone()));
    for k in ["active", "crop", "aspect", "neutral"] {
        x.attr(k, "");
    }
    x.attr("photometric", "CFA");
    builtin_matrix(&mut x, mats::SONY_M, id);
    let mut prd = r.bytes(8);
    for v in [h as u16, w as u16, r.u16(), r.u16()] {
        prd.extend_from_slice(&v.to_le_bytes());
    }
    prd.extend_from_slice(&[16, bpc, *r.pick(&[0x52u8, 0x59]), 0, 0, 0]);
    let bayer = *r.pick(&[1u16, 4]);
    prd.extend_from_slice(&bayer.to_le_bytes());
    x.attr("mosaic", if bayer == 4 { "GBRG" } else { "RGGB" });
    let mut list: Vec<(&[u8; 4], Vec<u8>)> = vec![(b"\0PRD", prd)];
    if r.chance(3, 4) {
        let (b, s) = mrw::wbg(r, false);
        x.attr("neutral", s);
        list.push((b"\0WBG", b));
    }
    for n in [b"\0RIF", b"\0PAD", b"\0XYZ"] {
        if r.chance(1, 2) {
            let k = r.us(40);
            list.push((n, r.bytes(k)));
        }
    }
    r.shuffle(&mut list);
    let mut body = mrw::Blocks::new(false);
    for (n, b) in &list {
        body.block(n, b, MK::Num);
    }
    let mut all = mrw::Blocks::new(false);
    let at = all.block(b"\0MRI", &body.bytes, MK::Num);
    all.marks.pop();
    all.marks.extend(body.marks.iter().map(|m| Mark { off: m.off + at, ..*m }));
    let c = cx.fb.blob(all.bytes);
    for m in &all.marks {
        cx.fb.mark(c, m.kind, m.off, m.len, m.be);
    }
    p.ifd0.add(0xc634, V::BP(c));
    let c = cx.fb.stream(data);
    p.ifd0.add(0x14a, V::P(vec![c]));
    if cx.rng.chance(5, 6) {
        preview_ifd(&mut cx, &mut p.ifd0, &mut thumbs, Some(1));
    }
    if let Some(note) = note {
        let head: &[u8] = if cx.rng.chance(1, 2) { b"SONY DSC \0\0\0" } else { b"" };
        p.note = Some(Note { head: head.to_vec(), base: None, dir: note, known: true, subs: vec![] });
    }
    chain(&mut cx, &mut p, "other", 2, &mut thumbs);
    cx.tag("raw:a100");
    cx.e.thumbs = Some(thumbs);
    cx.e.raw = Some(x);
    assemble(cx, p)
}
