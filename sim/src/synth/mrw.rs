//! Minolta MRW files.
use super::tb::*;
use super::tiffs::*;
use super::*;

const VERSIONS: &[(&str, u32)] = &[
    ("21860002", 7),
    ("21810002", 8),
    ("27730001", 3),
    ("27660001", 4),
    ("27790001", 5),
    ("27780001", 6),
    ("27820001", 1),
    ("27200001", 2),
    ("27470002", 9),
    ("12340001", 0),
];

/// The white balance of the block, and the block.
pub fn wbg(rng: &mut Rng, be: bool) -> (Vec<u8>, String) {
    let d: Vec<u8> = (0..4).map(|_| rng.below(6) as u8).collect();
    let n: Vec<u16> = (0..4).map(|_| rng.range(1, 4000) as u16).collect();
    let mut b = d.clone();
    for v in &n {
        b.extend_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
    }
    // denominators of R, G1 and B; nominators of R, G1 and B
    let s = [0usize, 1, 3].iter().map(|i| (64u32 << d[*i]) as f64 / n[*i] as f64).collect::<Vec<_>>();
    (b, format!("{:?}", [s[0], s[1], s[2], f64::NAN]))
}

pub struct Blocks {
    pub bytes: Vec<u8>,
    pub marks: Vec<Mark>,
    pub be: bool,
}

impl Blocks {
    pub fn new(be: bool) -> Blocks {
        Blocks { bytes: vec![], marks: vec![], be }
    }
    pub fn u32(&mut self, v: u32) {
        self.bytes.extend_from_slice(&if self.be { v.to_be_bytes() } else { v.to_le_bytes() });
    }
    pub fn block(&mut self, name: &[u8; 4], data: &[u8], kind: MK) -> usize {
        let at = self.bytes.len();
        self.marks.push(Mark { kind: MK::Head, off: at, len: 4, be: self.be });
        self.marks.push(Mark { kind: MK::Count, off: at + 4, len: 4, be: self.be });
        self.bytes.extend_from_slice(name);
        self.u32(data.len() as u32);
        if !data.is_empty() {
            self.marks.push(Mark { kind, off: at + 8, len: data.len(), be: self.be });
        }
        self.bytes.extend_from_slice(data);
        at + 8
    }
}

pub fn gen(rng: Rng) -> SynFile {
    let mut rng = rng;
    let be = rng.chance(5, 6);
    // the directories, with a base of their own
    let mut cx = Cx::new(rng, be);
    cx.e.type_ = "Mrw";
    cx.e.type_num = 4;
    cx.e.mime = "image/x-minolta-mrw";
    cx.e.content = true;
    let mut p = Parts::new("mrw", "mrw", be);
    let mut thumbs = vec![];
    common(&mut cx, &mut p);
    p.ifd0.add(0x10f, V::s("Minolta Co., Ltd."));
    p.ifd0.add(0x110, V::s("DiMAGE 7"));
    if cx.rng.chance(4, 5) {
        let mut note = Ifd::new();
        note.add(0, V::U(b"MLT0".to_vec()));
        for _ in 0..cx.rng.us(5) {
            let t = *cx.rng.pick(&[0x10u16, 0x18, 0x40, 0x100, 0x101, 0x102, 0x107, 0x10c, 0x114]);
            let v = any_value(&mut cx.rng);
            note.add(t, v);
        }
        if cx.rng.chance(3, 4) {
            let body = super::body_len(&mut cx.rng, 200);
            let mut j = enc::jpeg(&mut cx.rng, 640, 480, body);
            let first = *cx.rng.pick(&[0xffu8, 0, 0xd8]);
            let mut raw = j.clone();
            raw[0] = first;
            j[0] = 0xff;
            let n = raw.len() as u32;
            let c = cx.fb.blob(raw);
            if cx.rng.chance(1, 2) {
                note.add(0x88, V::P(vec![c]));
                note.add(0x89, V::L(vec![n]));
                cx.tag("preview:makernote");
            } else {
                note.add(0x81, V::UP(c, n));
                cx.tag("preview:makernote-old");
            }
            thumbs.push(ExpThumb { dim: 640, w: 640, h: 480, fmt: "Jpeg", data: j });
        }
        p.note = Some(Note { head: vec![], base: None, dir: note, known: true, subs: vec![] });
    }
    let (ver, id) = *cx.rng.pick(VERSIONS);
    cx.e.type_id = Some(0x60000 | id);
    cx.e.thumbs = Some(thumbs);
    let mut r = cx.rng.fork(5);
    let mut f = assemble(cx, p);
    // the raw image
    let (w, h) = ((r.range(1, 40) * 2) as usize, r.range(1, 40) as usize);
    let packed = r.chance(1, 2);
    let px = enc::pixels(&mut r, w * h, 12);
    let mut x = ExpRaw { w: w as u32, h: h as u32, stored_dim: Some((w as u32, h as u32)), dtype: "Raw".into(), ..Default::default() };
    let data = if packed {
        let d = enc::pack12be(&px, w, false);
        x.stored = Some(("CompressedRaw".into(), 1, d.clone()));
        x.bpc = 16;
        f.tags.push("raw:packed".into());
        d
    } else {
        x.stored = Some(("Raw".into(), 2, u16le(&px)));
        x.bpc = 12;
        x.uncompressed = true;
        f.tags.push("raw:12in16".into());
        enc::raw16(&px, true)
    };
    x.pixels = Some(px);
    let mut prd = ver.as_bytes().to_vec();
    for v in [h as u16, w as u16, h as u16 - 1, w as u16 - 2] {
        prd.extend_from_slice(&v.to_be_bytes());
    }
    prd.extend_from_slice(&[if packed { 12 } else { 16 }, 12, if packed { 0x59 } else { 0x52 }, 0, 0, 0]);
    let bayer = *r.pick(&[1u16, 4]);
    prd.extend_from_slice(&bayer.to_be_bytes());
    x.attr("mosaic", if bayer == 4 { "GBRG" } else { "RGGB" });
    x.attr("active", "");
    x.attr("crop", "");
    x.attr("aspect", "");
    x.attr("photometric", "CFA");
    let m = builtin(mats::MINOLTA_M, 0x60000 | id);
    x.attr("blacks", quad(&[m.map(|m| m.1 as u32).unwrap_or(0)]));
    x.attr("whites", quad(&[m.map(|m| m.2 as u32).unwrap_or(0)]));
    builtin_matrix(&mut x, mats::MINOLTA_M, 0x60000 | id);
    // the blocks, in any order
    let mut list: Vec<(&[u8; 4], Vec<u8>)> = vec![(b"\0PRD", prd), (b"\0TTW", vec![])];
    if r.chance(3, 4) {
        let (b, s) = wbg(&mut r, true);
        x.attr("neutral", s);
        list.push((b"\0WBG", b));
    } else {
        x.attr("neutral", "");
    }
    if r.chance(1, 2) {
        list.push((b"\0RIF", r.bytes(64)));
    }
    if r.chance(1, 2) {
        let n = r.us(300);
        list.push((b"\0PAD", r.bytes(n)));
    }
    if r.chance(1, 4) {
        let n = r.us(30);
        list.push((b"\0XYZ", r.bytes(n)));
    }
    for i in (1..list.len()).rev() {
        let j = r.us(i + 1);
        list.swap(i, j);
    }
    let mut b = Blocks::new(true);
    b.block(b"\0MRM", &[], MK::Head);
    for (n, d) in &list {
        if *n == b"\0TTW" {
            let at = b.block(n, &f.bytes, MK::Head);
            b.marks.pop();
            b.marks.extend(f.marks.iter().map(|m| Mark { off: m.off + at, ..*m }));
        } else {
            b.block(n, d, MK::Num);
        }
    }
    let n = b.bytes.len() - 8;
    b.bytes[4..8].copy_from_slice(&(n as u32).to_be_bytes());
    b.marks.push(Mark { kind: MK::Stream, off: b.bytes.len(), len: data.len(), be: true });
    b.bytes.extend_from_slice(&data);
    if r.chance(1, 3) {
        let k = r.us(40);
        b.bytes.extend(r.bytes(k));
    }
    f.exp.raw = Some(x);
    SynFile { fmt: "mrw", ext: *r.pick(&["mrw", "mrw", "MRW"]), bytes: b.bytes, marks: b.marks, exp: f.exp, tags: f.tags }
}
