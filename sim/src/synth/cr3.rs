//! Canon CR3 files: boxes, with a TIFF per directory.
use super::tb::*;
use super::*;

const HEADER: [u8; 16] = [0x85, 0xc0, 0xb6, 0x87, 0x82, 0x0f, 0x11, 0xe0, 0x81, 0x11, 0xf4, 0xce, 0x46, 0x2b, 0x6a, 0x48];
const XPACKET: [u8; 16] = [0xbe, 0x7a, 0xcf, 0xcb, 0x97, 0xa9, 0x42, 0xe8, 0x9c, 0x71, 0x99, 0x94, 0x91, 0xe3, 0xaf, 0xac];
const PREVIEW: [u8; 16] = [0xea, 0xf4, 0x2b, 0x5e, 0x1c, 0x98, 0x4b, 0x88, 0xb9, 0xfb, 0xb7, 0xdc, 0x40, 0x6e, 0x4d, 0x16];

/// The contents of a box.
#[derive(Default)]
struct Bx {
    b: Vec<u8>,
    marks: Vec<Mark>,
    /// (position, bytes, what): to be filled with the position in the file of what, plus something
    refs: Vec<(usize, usize, usize, u64)>,
    /// (position, what) here
    here: Vec<(usize, usize)>,
}

impl Bx {
    fn raw(&mut self, b: &[u8]) -> &mut Bx {
        self.b.extend_from_slice(b);
        self
    }
    fn mark(&mut self, kind: MK, len: usize) -> &mut Bx {
        self.marks.push(Mark { kind, off: self.b.len(), len, be: true });
        self
    }
    fn n16(&mut self, v: u32) -> &mut Bx {
        self.mark(MK::Num, 2).raw(&(v as u16).to_be_bytes())
    }
    fn n32(&mut self, v: u32) -> &mut Bx {
        self.mark(MK::Num, 4).raw(&v.to_be_bytes())
    }
    fn n64(&mut self, v: u64) -> &mut Bx {
        self.mark(MK::Num, 8).raw(&v.to_be_bytes())
    }
    fn count(&mut self, v: u32) -> &mut Bx {
        self.mark(MK::Count, 4).raw(&v.to_be_bytes())
    }
    fn full(&mut self, version: u8, flags: u32) -> &mut Bx {
        self.n32((version as u32) << 24 | flags)
    }
    fn ptr(&mut self, len: usize, what: usize) -> &mut Bx {
        self.mark(MK::Ptr, len);
        self.refs.push((self.b.len(), len, what, 0));
        self.raw(&vec![0; len])
    }
    fn here(&mut self, what: usize) -> &mut Bx {
        self.here.push((self.b.len(), what));
        self
    }
    fn put(&mut self, x: Bx) -> &mut Bx {
        let at = self.b.len();
        self.marks.extend(x.marks.iter().map(|m| Mark { off: m.off + at, ..*m }));
        self.refs.extend(x.refs.iter().map(|r| (r.0 + at, r.1, r.2, r.3)));
        self.here.extend(x.here.iter().map(|r| (r.0 + at, r.1)));
        self.raw(&x.b)
    }
    fn boxed(self, name: &[u8; 4], wide: bool) -> Bx {
        let mut o = Bx::default();
        let n = self.b.len() as u64;
        if wide {
            o.n32(1).mark(MK::Tag, 4).raw(name).mark(MK::Count, 8).raw(&(n + 16).to_be_bytes());
        } else {
            o.count(n as u32 + 8).mark(MK::Tag, 4).raw(name);
        }
        o.put(self);
        o
    }
    fn uuid(self, id: &[u8; 16], wide: bool) -> Bx {
        let mut o = Bx::default();
        o.mark(MK::Tag, 16).raw(id).put(self);
        o.boxed(b"uuid", wide)
    }
    /// a box of the name, any
    fn add(&mut self, r: &mut Rng, name: &[u8; 4], x: Bx) -> &mut Bx {
        let wide = r.chance(1, 12);
        self.put(x.boxed(name, wide))
    }
}

/// Something the reader has no use for.
fn filler(r: &mut Rng, o: &mut Bx) {
    let mut x = Bx::default();
    let n = *r.pick(&[0usize, 0, 8, 1, 100, 40]);
    x.raw(&r.bytes(n));
    let name = *r.pick(&[b"free", b"skip", b"wide", b"CCTP", b"CCDT", b"zzzz"]);
    o.add(r, name, x);
}

/// A directory in a file of its own.
fn tiff(r: &mut Rng, d: &Ifd, be: bool) -> Built {
    let mut fb = Fb::new(be, r.fork(5));
    let head = fb.head(tiff_head(be));
    let mut d = d.clone();
    if r.chance(1, 8) {
        let mut n = Ifd::new();
        plain_tags(r, &mut n, 3);
        d.next = Some(fb.ifd(&n, Base::File).0);
    }
    let (c, _) = fb.ifd(&d, Base::File);
    fb.ptr((head.0, 4), c, Base::File, be);
    let gap = *r.pick(&[0usize, 0, 8]);
    fb.build(head, None, r.chance(1, 2), gap)
}

fn stream(b: &[u8]) -> Bx {
    let mut x = Bx::default();
    x.mark(MK::Stream, b.len()).raw(b);
    x
}

pub fn gen(rng: Rng) -> SynFile {
    let mut r = rng;
    let r = &mut r;
    let mut tags = vec![];
    let mut e = Expect { type_: "Cr3", type_num: 14, mime: "image/x-canon-cr3", content: true, ..Default::default() };
    let mut thumbs: Vec<ExpThumb> = vec![];
    let mut preview = |r: &mut Rng, thumbs: &mut Vec<ExpThumb>| loop {
        let (w, h) = jpeg_dims(r);
        let dim = w.max(h);
        if !thumbs.iter().any(|t| t.dim == dim) {
            let body = super::body_len(r, 300);
            let data = enc::jpeg(r, w, h, body);
            let t = ExpThumb { dim, w, h, fmt: "Jpeg", data };
            thumbs.push(t.clone());
            break t;
        }
    };

    // the directories
    let mut x = ExpRaw { dtype: "CompressedRaw".into(), ..Default::default() };
    let mut id = 0x10000;
    let bes: Vec<bool> = {
        let be = r.chance(1, 5);
        let mixed = r.chance(1, 8);
        (0..4).map(|_| if mixed { r.chance(1, 2) } else { be }).collect()
    };
    let mut main = Ifd::new();
    orientation(r, &mut main);
    main.add(0x10f, V::s("Canon"));
    if r.chance(3, 4) {
        main.add(0x110, V::s("Canon EOS something"));
    }
    let n = r.us(8);
    plain_tags(r, &mut main, n);
    let exif = photo_ifd(r);
    let mut note = Ifd::new();
    for _ in 0..r.us(5) {
        let t = *r.pick(&[1u16, 2, 4, 6, 7, 9, 0xc, 0x13, 0x26, 0x95, 0x96, 0xb4]);
        let v = any_value(r);
        note.add(t, v);
    }
    note.add(9, V::s("someone"));
    let mut scratch = ExpRaw::default();
    cr2::colour_note(r, &mut note, &mut scratch, bes[2]);
    let present: Vec<bool> = (0..4).map(|_| r.chance(11, 12)).collect();
    for k in ["active", "crop", "aspect"] {
        x.attrs.insert(k, if present[2] { scratch.attrs[k].clone() } else { vec![String::new()] });
    }
    match r.us(6) {
        0 => {}
        1 => {
            note.add(0x10, V::L(vec![0x7000_0000]));
        }
        _ => {
            let (n, i) = *r.pick(models::CANON_IDS);
            note.add(0x10, V::L(vec![n]));
            if present[2] {
                id = i;
            }
        }
    }
    e.type_id = Some(id);
    x.attr("matrix1", "");
    super::tiffs::builtin_matrix(&mut x, mats::CANON_M, id);
    let gps = gps_ifd(r);
    let mut head = vec![];
    for (i, d) in [&main, &exif, &note, &gps].into_iter().enumerate() {
        if !present[i] {
            if i < 3 {
                e.no_dirs.push(i as u8);
            }
            if i == 0 {
                e.orient = Some(0);
                e.absent = vec!["Exif.Image.Make".into()];
            }
            tags.push(format!("cr3:no-cmt{}", i + 1));
            continue;
        }
        let b = tiff(r, d, bes[i]);
        e.dumped.extend(b.dirs.clone());
        if i == 0 {
            let mut t = Expect::default();
            expect_meta(&mut t, &[("Exif.Image", d, tag_name)], &b, 0);
            (e.meta, e.absent, e.orient) = (t.meta, t.absent, t.orient);
        }
        if i < 3 {
            expect_dir(&mut e, i as u8, d);
        }
        let mut c = Bx { b: b.bytes, marks: b.marks, ..Default::default() };
        if r.chance(1, 4) {
            let n = r.us(20);
            let n = r.bytes(n);
            c.raw(&n);
        }
        let mut o = Bx::default();
        o.add(r, &[b'C', b'M', b'T', b'1' + i as u8], c);
        head.push(o);
    }

    // the images: what they are called in the file
    const PRVW: usize = 1;
    const XMP: usize = 2;
    const MDAT: usize = 3;
    const TRACK: usize = 10;
    let mut c = Bx::default();
    c.raw(b"CanonCR3_001/00.09.00/00.00.00");
    let mut o = Bx::default();
    o.add(r, b"CNCV", c);
    head.push(o);
    if r.chance(5, 6) {
        let mut c = Bx::default();
        let t = if r.chance(11, 12) {
            Some(preview(r, &mut thumbs))
        } else {
            None
        };
        let (w, h, data) = t.map(|t| (t.w, t.h, t.data)).unwrap_or_default();
        let v = r.us(2) as u8;
        c.full(v, 0).n16(w).n16(h).count(data.len() as u32).n16(1).n16(0).put(stream(&data));
        if r.chance(1, 2) {
            let n = r.us(4);
            c.raw(&vec![0; n]);
        }
        let mut o = Bx::default();
        o.add(r, b"THMB", c);
        head.push(o);
    }
    let n = *r.pick(&[4usize, 3, 3, 4, 5, 1, 0]);
    let mut c = Bx::default();
    c.count(n as u32);
    for i in 1..=n {
        c.n32(i as u32);
        if i == 4 {
            c.n64(0).n64(0);
        } else {
            let w = [XMP, PRVW, MDAT][(i - 1) % 3];
            c.ptr(8, w).n64(r.range(1, 100_000));
        }
    }
    if r.chance(7, 8) {
        let mut o = Bx::default();
        o.add(r, b"CTBO", c);
        head.push(o);
    } else {
        tags.push("cr3:no-table".into());
    }
    let table = n >= 2 && !tags.iter().any(|t| t == "cr3:no-table");
    for _ in 0..r.us(3) {
        let mut o = Bx::default();
        filler(r, &mut o);
        head.push(o);
    }
    if r.chance(1, 2) {
        r.shuffle(&mut head);
    }
    let mut h = Bx::default();
    for b in head {
        h.put(b);
    }
    let mut moov = vec![h.uuid(&HEADER, false)];

    // the tracks
    let mut c = Bx::default();
    let v = r.chance(1, 6);
    c.full(v as u8, 0);
    c.raw(&r.bytes(if v { 16 } else { 8 }));
    c.n32(1 + r.below(100_000) as u32);
    if v {
        c.n64(1);
    } else {
        c.n32(1);
    }
    c.raw(&[0; 80]);
    let mut o = Bx::default();
    o.add(r, b"mvhd", c);
    moov.push(o);
    let mut streams: Vec<(usize, Vec<u8>)> = vec![];
    let mut kinds = vec!["jpeg", "crx", "crx"];
    match r.us(8) {
        0 => kinds = vec!["jpeg", "jpeg", "crx", "meta"],
        1 => kinds = vec!["crx", "jpeg", "crx", "jpeg"],
        2 => {
            kinds.truncate(r.us(4));
        }
        3 => {
            kinds = (0..r.us(6)).map(|_| *r.pick(&["jpeg", "crx", "meta", "avc", "audio"])).collect();
        }
        _ => {
            if r.chance(1, 2) {
                kinds.push("meta");
            }
        }
    }
    let mut track_thumbs = vec![];
    for (i, k) in kinds.iter().enumerate() {
        let (w, h, data) = match *k {
            "jpeg" => {
                let n = thumbs.len();
                let t = preview(r, &mut thumbs);
                track_thumbs.push(n);
                (t.w, t.h, t.data)
            }
            _ => {
                let n = r.range(1, 3000) as usize;
                (r.range(1, 9000) as u32, r.range(1, 9000) as u32, r.bytes(n))
            }
        };
        if i == 2 && *k == "crx" {
            x.stored = Some(("CompressedRaw".into(), 1, data.clone()));
            (x.w, x.h) = (w, h);
            x.stored_dim = Some((w, h));
            x.bpc = 8;
            x.attr("output", format!("{w}x{h}"));
        }
        let n = data.len() as u32;
        streams.push((TRACK + i, data));
        // the description
        let mut d = Bx::default();
        let (entry, handler) = match *k {
            "meta" => (b"CTMD", b"meta"),
            "audio" => (b"lpcm", b"soun"),
            "avc" => (b"xvc1", b"vide"),
            _ => (b"CRAW", b"vide"),
        };
        match *k {
            "meta" => {
                d.raw(&r.bytes(40));
            }
            "audio" => {
                d.raw(&[0; 6]).n16(1).n16(0).raw(&[0; 6]).n16(2).n16(16).raw(&[0; 4]).n32(48000 << 16);
            }
            _ => {
                d.raw(&[0; 6]).n16(1).raw(&[0; 16]).n16(w).n16(h);
                d.raw(&r.bytes(if entry == b"CRAW" { 54 } else { 50 }));
                if r.chance(1, 3) {
                    filler(r, &mut d);
                }
                if *k == "jpeg" {
                    let mut j = Bx::default();
                    let n = *r.pick(&[0usize, 4, 12]);
                    j.raw(&r.bytes(n));
                    d.add(r, b"JPEG", j);
                } else if entry == b"CRAW" {
                    let mut j = Bx::default();
                    j.raw(&r.bytes(52));
                    d.add(r, b"CMP1", j);
                }
                if r.chance(1, 3) {
                    filler(r, &mut d);
                }
            }
        }
        let mut s = Bx::default();
        s.full(0, 0).count(1);
        s.add(r, entry, d);
        if r.chance(1, 8) {
            s.raw(&[0; 4]);
        }
        let mut parts = vec![];
        let mut o = Bx::default();
        o.add(r, b"stsd", s);
        parts.push(o);
        // the tables
        let samples = r.chance(1, 3);
        let mut s = Bx::default();
        s.full(0, 0);
        if samples {
            s.n32(0);
            let m = *r.pick(&[1u32, 1, 3]);
            s.count(m);
            s.n32(n);
            for _ in 1..m {
                s.n32(r.u32());
            }
        } else {
            s.n32(n).count(1);
        }
        let mut o = Bx::default();
        o.add(r, b"stsz", s);
        parts.push(o);
        let mut s = Bx::default();
        let long = r.chance(2, 3);
        s.full(0, 0);
        let m = *r.pick(&[1u32, 1, 1, 2]);
        s.count(m);
        s.ptr(if long { 8 } else { 4 }, TRACK + i);
        for _ in 1..m {
            s.raw(&vec![1; if long { 8 } else { 4 }]);
        }
        if r.chance(1, 8) {
            let n = r.us(9);
            s.raw(&r.bytes(n));
        }
        let mut o = Bx::default();
        o.add(r, if long { b"co64" } else { b"stco" }, s);
        parts.push(o);
        for (name, words) in [(b"stts", 2), (b"stsc", 3), (b"stss", 1), (b"ctts", 2)] {
            if r.chance(1, 2) {
                let mut s = Bx::default();
                let m = *r.pick(&[1u32, 1, 0, 4]);
                s.full(0, 0).count(m);
                for _ in 0..m * words {
                    s.n32(1);
                }
                let mut o = Bx::default();
                o.add(r, name, s);
                parts.push(o);
            }
        }
        if r.chance(1, 6) {
            let mut o = Bx::default();
            filler(r, &mut o);
            parts.push(o);
        }
        if r.chance(1, 3) {
            r.shuffle(&mut parts);
        }
        let mut stbl = Bx::default();
        for p in parts {
            stbl.put(p);
        }
        let mut minf = Bx::default();
        if r.chance(3, 4) {
            let mut v = Bx::default();
            v.full(0, 1).raw(&[0; 8]);
            minf.add(r, b"vmhd", v);
        }
        minf.add(r, b"stbl", stbl);
        let mut mdia = Bx::default();
        let mut v = Bx::default();
        let long = r.chance(1, 6);
        v.full(long as u8, 0);
        v.raw(&r.bytes(if long { 16 } else { 8 })).n32(1);
        if long {
            v.n64(1);
        } else {
            v.n32(1);
        }
        v.raw(&[0; 4]);
        mdia.add(r, b"mdhd", v);
        let mut v = Bx::default();
        v.full(0, 0).n32(0).mark(MK::Tag, 4).raw(handler).raw(&[0; 12]);
        if r.chance(3, 4) {
            v.raw(&[0]);
        }
        mdia.add(r, b"hdlr", v);
        mdia.add(r, b"minf", minf);
        let mut trak = Bx::default();
        let mut v = Bx::default();
        let long = r.chance(1, 6);
        v.full(long as u8, 7);
        v.raw(&r.bytes(if long { 16 } else { 8 })).n32(i as u32 + 1).raw(&[0; 4]);
        if long {
            v.n64(1);
        } else {
            v.n32(1);
        }
        v.raw(&[0; 16]);
        v.raw(&r.bytes(36)).n32(w << 16).n32(h << 16);
        trak.add(r, b"tkhd", v);
        if r.chance(1, 5) {
            let mut l = Bx::default();
            let m = *r.pick(&[1u32, 0, 2]);
            l.full(0, 0).count(m);
            for _ in 0..m {
                l.n32(1).n32(0).n16(1).n16(0);
            }
            if m == 0 {
                l.raw(&[]);
            }
            let mut ed = Bx::default();
            ed.add(r, b"elst", l);
            trak.add(r, b"edts", ed);
        }
        trak.add(r, b"mdia", mdia);
        let mut o = Bx::default();
        o.add(r, b"trak", trak);
        moov.push(o);
        tags.push(format!("track:{k}"));
    }
    if r.chance(1, 6) {
        let mut u = Bx::default();
        if r.chance(1, 2) {
            filler(r, &mut u);
        } else {
            u.raw(&r.bytes(30));
        }
        let mut o = Bx::default();
        o.add(r, b"udta", u);
        moov.push(o);
    }
    if r.chance(1, 4) {
        let mut o = Bx::default();
        filler(r, &mut o);
        moov.push(o);
    }
    if r.chance(1, 6) {
        let mut o = Bx::default();
        o.put(Bx::default().uuid(&XPACKET, false));
        moov.push(o);
    }
    if r.chance(1, 4) {
        // the order of the tracks counts
        let h = moov.remove(0);
        moov.push(h);
    }
    let mut m = Bx::default();
    for b in moov {
        m.put(b);
    }

    // the top level
    let mut top: Vec<Bx> = vec![];
    let mut o = Bx::default();
    o.add(r, b"moov", m);
    top.push(o);
    let mut xmp = Bx::default();
    let n = r.us(60);
    xmp.raw(&vec![b' '; n]);
    let mut o = Bx::default();
    o.here(XMP).put(xmp.uuid(&XPACKET, false));
    top.push(o);
    let mut pv = Bx::default();
    pv.raw(&[0, 0, 0, 0, 0, 0, 0, 1]);
    let mut c = Bx::default();
    c.full(0, 0).n16(1);
    match r.us(8) {
        0 => {
            c.n16(0).n16(0).n16(1).count(0);
            tags.push("preview:none".into());
        }
        _ => {
            if table {
                let t = preview(r, &mut thumbs);
                c.n16(t.w).n16(t.h).n16(1).count(t.data.len() as u32).put(stream(&t.data));
            } else {
                c.n16(100).n16(100).n16(1).count(10).raw(&[1; 10]);
            }
        }
    }
    pv.put(c.boxed(b"PRVW", false));
    let mut o = Bx::default();
    o.here(PRVW).put(pv.uuid(&PREVIEW, false));
    top.push(o);
    let mut c = Bx::default();
    r.shuffle(&mut streams);
    for (w, d) in streams {
        if r.chance(1, 4) {
            let n = r.us(20);
            c.raw(&r.bytes(n));
        }
        c.here(w).put(stream(&d));
    }
    let mut o = Bx::default();
    let wide = r.chance(3, 4);
    o.here(MDAT).put(c.boxed(b"mdat", wide));
    top.push(o);
    if r.chance(1, 4) {
        let mut o = Bx::default();
        filler(r, &mut o);
        top.push(o);
    }
    if r.chance(1, 4) {
        r.shuffle(&mut top);
        tags.push("cr3:shuffled".into());
    }
    let mut f = Bx::default();
    let mut c = Bx::default();
    c.mark(MK::Head, 4).raw(b"crx ").n32(1).raw(b"crx isom");
    f.put(c.boxed(b"ftyp", false));
    for t in top {
        f.put(t);
    }
    for (at, len, what, _) in &f.refs {
        let p = f.here.iter().find(|h| h.1 == *what).unwrap().0 as u64;
        f.b[*at..*at + *len].copy_from_slice(&p.to_be_bytes()[8 - len..]);
    }
    if x.stored.is_some() {
        x.attr("photometric", "CFA");
        e.raw = Some(x);
    }
    e.thumbs = Some(thumbs);
    SynFile { fmt: "cr3", ext: *r.pick(&["cr3", "cr3", "CR3"]), bytes: f.b, marks: f.marks, exp: e, tags }
}
