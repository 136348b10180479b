//! JPEG files, and the JPEG images with Exif inside raw files.
use super::tb::*;
use super::tiffs::*;
use super::*;

/// A JPEG image with an Exif block. The expectations are those of the directories in the block:
/// thumbs: the 160 pixels one if there.
pub fn exif_jpeg(rng: Rng, w: u32, h: u32, heads: &[(&'static [u8], Option<usize>)]) -> SynFile {
    let mut rng = rng;
    let be = rng.chance(1, 2);
    let mut cx = Cx::new(rng, be);
    let mut p = Parts::new("jpeg", "jpg", be);
    common(&mut cx, &mut p);
    let mut thumbs = vec![];
    if cx.rng.chance(2, 3) {
        // the segment holds up to 64 KiB
        let body = if cx.rng.chance(1, 16) { cx.rng.range(20000, 45000) as usize } else { cx.rng.us(200) };
        let j = enc::jpeg(&mut cx.rng, 160, 120, body);
        let mut d = Ifd::new();
        if cx.rng.chance(2, 3) {
            d.add(0x103, V::S(vec![6]));
        }
        let n = j.len() as u32;
        let c = cx.fb.stream(j.clone());
        d.add(0x201, V::P(vec![c]));
        d.add(0x202, V::L(vec![n]));
        let n = cx.rng.us(4);
        plain_tags(&mut cx.rng, &mut d, n);
        p.chain.push(("other", d));
        thumbs.push(ExpThumb { dim: 160, w: 160, h: 120, fmt: "Jpeg", data: j });
        cx.tag("preview:exif");
    }
    if p.exif.is_some() && !heads.is_empty() && cx.rng.chance(2, 3) {
        let (head, base) = *cx.rng.pick(heads);
        let dir = dng::small_dir(&mut cx.rng, 6);
        p.note = Some(Note { head: head.to_vec(), base, dir, known: true, subs: vec![] });
    }
    cx.e.thumbs = Some(thumbs);
    let mut r = cx.rng.fork(6);
    let mut f = assemble(cx, p);
    let mut o = vec![0xff, 0xd8, 0xff, 0xe1];
    o.extend_from_slice(&(f.bytes.len() as u16 + 8).to_be_bytes());
    o.extend_from_slice(b"Exif\0\0");
    assert!(f.bytes.len() < 65000);
    for m in f.marks.iter_mut() {
        m.off += o.len();
    }
    f.marks.push(Mark { kind: MK::Count, off: 4, len: 2, be: true });
    f.marks.push(Mark { kind: MK::Head, off: 0, len: 12, be: true });
    o.extend_from_slice(&f.bytes);
    if r.chance(1, 3) {
        let n = r.us(60);
        o.extend_from_slice(&[0xff, 0xe0 + r.range(2, 13) as u8]);
        o.extend_from_slice(&(n as u16 + 2).to_be_bytes());
        o.extend(r.bytes(n));
    }
    let body = super::body_len(&mut r, 300);
    let at = o.len();
    o.extend(enc::jpeg_tail(&mut r, w, h, body));
    f.marks.push(Mark { kind: MK::Stream, off: at, len: o.len() - at, be: true });
    f.bytes = o;
    f
}

pub fn gen(rng: Rng) -> SynFile {
    let mut rng = rng;
    let (w, h) = jpeg_dims(&mut rng);
    let ext = *rng.pick(&["jpg", "jpg", "jpeg"]);
    let mut f = if rng.chance(5, 6) {
        exif_jpeg(rng, w, h, &[(b"", None), (b"OLYMPUS\0II\x03\0", Some(0)), (b"Panasonic\0\0\0", None), (b"FUJIFILM\x0c\0\0\0", Some(0)), (b"LEICA\0\0\0", Some(0))])
    } else {
        let body = rng.us(300);
        let b = enc::jpeg(&mut rng, w, h, body);
        let n = b.len();
        let mut e = Expect { no_dirs: vec![1, 2], meta_all: Some(vec![]), thumbs: Some(vec![]), ..Default::default() };
        e.content = true;
        SynFile { fmt: "jpeg", ext, bytes: b, marks: vec![Mark { kind: MK::Stream, off: 0, len: n, be: true }], exp: e, tags: vec!["bare".into()] }
    };
    f.ext = ext;
    let e = &mut f.exp;
    e.type_ = "Jpeg";
    e.type_num = 100;
    e.mime = "application/octet-stream";
    e.type_id = Some(1000 << 16);
    // the main directory is not looked into
    e.orient = None;
    e.absent = e.meta.drain(..).map(|m| m.0).collect();
    e.dirs.retain(|d| d.0 != 1);
    for d in e.dirs.iter_mut() {
        if d.0 == 0 {
            // what it calls the Exif directory
            d.0 = 1;
        }
    }
    if e.no_dirs != [1, 2] || e.meta_all.as_ref().map(|m| !m.is_empty()).unwrap_or(false) {
        e.no_dirs.retain(|d| *d != 1);
    }
    e.no_dirs.push(0);
    f
}
