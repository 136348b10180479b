//! Encoders: the inverse of what the library decodes, written from the format descriptions.
use simrt::rng::Rng;

/// Most-significant-bit-first bit writer.
#[derive(Default)]
pub struct BitW {
    pub out: Vec<u8>,
    acc: u64,
    n: u32,
    /// JPEG byte stuffing
    pub stuff: bool,
}
impl BitW {
    pub fn put(&mut self, v: u32, bits: u32) {
        if bits == 0 {
            return;
        }
        self.acc = (self.acc << bits) | (v as u64 & ((1u64 << bits) - 1));
        self.n += bits;
        while self.n >= 8 {
            let b = (self.acc >> (self.n - 8)) as u8;
            self.out.push(b);
            if self.stuff && b == 0xff {
                self.out.push(0);
            }
            self.n -= 8;
        }
    }
    pub fn flush(&mut self, ones: bool) {
        while self.n > 0 {
            let k = 8 - self.n;
            self.put(if ones { (1u32 << k) - 1 } else { 0 }, k);
        }
    }
    pub fn bits(&self) -> usize {
        self.out.len() * 8 + self.n as usize
    }
}

/// A prefix code over symbols 0..n: (code, length) per symbol.
pub struct Huff {
    pub bits: [u8; 17],
    pub vals: Vec<u8>,
    pub code: Vec<(u32, u32)>,
}

impl Huff {
    /// Random canonical code over `syms`, no all-ones code.
    pub fn random(rng: &mut Rng, syms: &[u8], maxlen: u32) -> Huff {
        let mut leaves: Vec<u32> = vec![0];
        while leaves.len() < syms.len() + 1 {
            let cand: Vec<usize> = (0..leaves.len()).filter(|i| leaves[*i] < maxlen).collect();
            // bias to make long codes appear
            let i = if rng.chance(1, 3) { *cand.iter().max_by_key(|i| leaves[**i]).unwrap() } else { *rng.pick(&cand) };
            leaves[i] += 1;
            let l = leaves[i];
            leaves.push(l);
        }
        leaves.sort();
        leaves.pop();
        let mut order = syms.to_vec();
        rng.shuffle(&mut order);
        Huff::from_lengths(&leaves, &order)
    }
    /// lengths ascending, symbols in the same order
    pub fn from_lengths(lens: &[u32], order: &[u8]) -> Huff {
        let mut bits = [0u8; 17];
        let mut code = vec![(0u32, 0u32); 256];
        let mut c = 0u32;
        let mut last = lens.first().copied().unwrap_or(0);
        for (l, s) in lens.iter().zip(order) {
            c <<= l - last;
            last = *l;
            bits[*l as usize] += 1;
            code[*s as usize] = (c, *l);
            c += 1;
        }
        Huff { bits, vals: order.to_vec(), code }
    }
    pub fn put(&self, w: &mut BitW, s: usize) {
        let (c, l) = self.code[s];
        assert!(l > 0, "symbol {s} has no code");
        w.put(c, l);
    }
}

pub struct LjOpts {
    pub comps: usize,
    pub prec: u32,
    pub psv: u8,
    pub pt: u32,
    /// rows per restart interval, 0 none
    pub restart: usize,
    pub ntables: usize,
    /// extra segments before SOF
    pub extra: bool,
}

/// Lossless JPEG: `data` is h rows of w*comps samples (w = columns).
pub fn ljpeg(rng: &mut Rng, w: usize, h: usize, data: &[u16], o: &LjOpts) -> Vec<u8> {
    assert_eq!(data.len(), w * h * o.comps);
    let mut out = vec![0xff, 0xd8];
    if o.extra {
        let n = rng.us(20);
        out.extend_from_slice(&[0xff, 0xe0, 0, (n + 2) as u8]);
        out.extend(rng.bytes(n));
        let n = rng.us(20);
        out.extend_from_slice(&[0xff, 0xfe, 0, (n + 2) as u8]);
        out.extend(rng.bytes(n));
    }
    // differences first, to know the categories
    let s = |r: usize, c: usize, k: usize| (data[(r * w + c) * o.comps + k] >> o.pt) as i32;
    let mut diffs: Vec<(usize, i32)> = vec![];
    for r in 0..h {
        let first = r == 0 || (o.restart > 0 && r % o.restart == 0);
        for c in 0..w {
            for k in 0..o.comps {
                let p = if first {
                    if c == 0 {
                        1 << (o.prec - o.pt - 1)
                    } else {
                        s(r, c - 1, k)
                    }
                } else if c == 0 {
                    s(r - 1, c, k)
                } else {
                    let (a, b, d) = (s(r, c - 1, k), s(r - 1, c, k), s(r - 1, c - 1, k));
                    match o.psv {
                        1 => a,
                        2 => b,
                        3 => d,
                        4 => a + b - d,
                        5 => a + ((b - d) >> 1),
                        6 => b + ((a - d) >> 1),
                        _ => (a + b) >> 1,
                    }
                };
                // modulo 2^16
                let mut d = (s(r, c, k) - p) & 0xffff;
                if d > 32768 {
                    d -= 65536;
                }
                diffs.push((k % o.ntables, d));
            }
        }
    }
    let cat = |d: i32| if d == 0 { 0 } else { 32 - (d.unsigned_abs()).leading_zeros() } as usize;
    let mut tabs = vec![];
    for t in 0..o.ntables {
        let mut syms: Vec<u8> = diffs.iter().filter(|x| x.0 == t).map(|x| cat(x.1) as u8).collect();
        syms.sort();
        syms.dedup();
        for x in 0..16u8 {
            if rng.chance(1, 2) && !syms.contains(&x) {
                syms.push(x);
            }
        }
        if syms.is_empty() {
            syms.push(0);
        }
        tabs.push(Huff::random(rng, &syms, 16));
    }
    let dht = |out: &mut Vec<u8>| {
        for (i, t) in tabs.iter().enumerate() {
            out.extend_from_slice(&[0xff, 0xc4]);
            out.extend_from_slice(&((2 + 17 + t.vals.len()) as u16).to_be_bytes());
            out.push(i as u8);
            out.extend_from_slice(&t.bits[1..]);
            out.extend_from_slice(&t.vals);
        }
    };
    let dht_first = rng.chance(1, 2);
    if dht_first {
        dht(&mut out);
    }
    out.extend_from_slice(&[0xff, 0xc3]);
    out.extend_from_slice(&((8 + 3 * o.comps) as u16).to_be_bytes());
    out.push(o.prec as u8);
    out.extend_from_slice(&(h as u16).to_be_bytes());
    out.extend_from_slice(&(w as u16).to_be_bytes());
    out.push(o.comps as u8);
    for k in 0..o.comps {
        out.extend_from_slice(&[k as u8 + 1, 0x11, 0]);
    }
    if !dht_first {
        dht(&mut out);
    }
    if o.restart > 0 {
        out.extend_from_slice(&[0xff, 0xdd, 0, 4]);
        out.extend_from_slice(&((o.restart * w) as u16).to_be_bytes());
    }
    out.extend_from_slice(&[0xff, 0xda]);
    out.extend_from_slice(&((6 + 2 * o.comps) as u16).to_be_bytes());
    out.push(o.comps as u8);
    for k in 0..o.comps {
        out.extend_from_slice(&[k as u8 + 1, ((k % o.ntables) as u8) << 4]);
    }
    out.extend_from_slice(&[o.psv, 0, o.pt as u8]);
    let mut bw = BitW { stuff: true, ..Default::default() };
    let per_row = w * o.comps;
    for r in 0..h {
        if r > 0 && o.restart > 0 && r % o.restart == 0 {
            bw.flush(true);
            bw.out.extend_from_slice(&[0xff, 0xd0 + ((r / o.restart - 1) % 8) as u8]);
        }
        for (t, d) in &diffs[r * per_row..(r + 1) * per_row] {
            let n = cat(*d);
            tabs[*t].put(&mut bw, n);
            if n > 0 && n < 16 {
                let v = if *d < 0 { *d - 1 } else { *d };
                bw.put(v as u32 & ((1u32 << n) - 1), n as u32);
            }
        }
    }
    bw.flush(true);
    out.extend_from_slice(&bw.out);
    out.extend_from_slice(&[0xff, 0xd9]);
    out
}

/// A baseline JPEG stream with a readable header (content not meant to be decoded).
pub fn jpeg(rng: &mut Rng, w: u32, h: u32, body: usize) -> Vec<u8> {
    let mut o = vec![0xff, 0xd8];
    o.extend(jpeg_tail(rng, w, h, body));
    o
}
pub fn jpeg_tail(rng: &mut Rng, w: u32, h: u32, body: usize) -> Vec<u8> {
    let mut o = vec![];
    o.extend_from_slice(&[0xff, 0xdb, 0, 67, 0]);
    o.extend((0..64).map(|_| rng.range(1, 255) as u8));
    o.extend_from_slice(&[0xff, 0xc0, 0, 11, 8]);
    o.extend_from_slice(&(h as u16).to_be_bytes());
    o.extend_from_slice(&(w as u16).to_be_bytes());
    o.extend_from_slice(&[1, 1, 0x11, 0]);
    o.extend_from_slice(&[0xff, 0xc4, 0, 20, 0]);
    o.extend_from_slice(&[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    o.extend_from_slice(&[0xff, 0xc4, 0, 20, 0x10]);
    o.extend_from_slice(&[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    o.extend_from_slice(&[0xff, 0xda, 0, 8, 1, 1, 0, 0, 63, 0]);
    o.extend((0..body).map(|_| (rng.u8()) & 0x7f));
    o.extend_from_slice(&[0xff, 0xd9]);
    o
}

/// n-bit samples, most significant bit first, each row byte-aligned.
pub fn pack_msb(px: &[u16], w: usize, n: u32) -> Vec<u8> {
    let mut o = vec![];
    for r in px.chunks(w) {
        let mut b = BitW::default();
        for p in r {
            b.put(*p as u32, n);
        }
        b.flush(false);
        o.extend(b.out);
    }
    o
}
/// 12 bits, two samples in three bytes, big-endian order; `pad`: a padding byte after 15 bytes.
pub fn pack12be(px: &[u16], w: usize, pad: bool) -> Vec<u8> {
    let mut o = vec![];
    for r in px.chunks(w) {
        for (i, p) in r.chunks(2).enumerate() {
            o.push((p[0] >> 4) as u8);
            o.push(((p[0] & 15) << 4 | p[1] >> 8) as u8);
            o.push(p[1] as u8);
            if pad && i % 5 == 4 {
                o.push(0x5e);
            }
        }
    }
    o
}
/// 12 bits, two samples in three bytes, little-endian order.
pub fn pack12le(px: &[u16], w: usize, pad: bool) -> Vec<u8> {
    let mut o = vec![];
    for r in px.chunks(w) {
        for (i, p) in r.chunks(2).enumerate() {
            o.push(p[0] as u8);
            o.push(((p[1] & 15) << 4 | p[0] >> 8) as u8);
            o.push((p[1] >> 4) as u8);
            if pad && i % 5 == 4 {
                o.push(0x5e);
            }
        }
    }
    o
}
pub fn raw16(px: &[u16], be: bool) -> Vec<u8> {
    px.iter().flat_map(|p| if be { p.to_be_bytes() } else { p.to_le_bytes() }).collect()
}

/// Pixel data with structure: mixtures of smooth, extreme and random samples below 2^bits.
pub fn pixels(rng: &mut Rng, n: usize, bits: u32) -> Vec<u16> {
    let max = ((1u32 << bits) - 1) as u64;
    let mode = rng.us(5);
    let mut cur = rng.below(max + 1);
    (0..n)
        .map(|_| {
            let v = match mode {
                0 => rng.below(max + 1),
                1 => {
                    let d = rng.range(0, 8);
                    cur = (cur + d).saturating_sub(4).min(max);
                    cur
                }
                2 => *rng.pick(&[0, max, max / 2, max / 2 + 1, 1, cur]),
                3 => {
                    if rng.chance(1, 10) {
                        cur = rng.below(max + 1)
                    }
                    cur
                }
                _ => {
                    let s = 1u64 << rng.below(bits as u64 + 1);
                    cur = if rng.chance(1, 2) { cur.saturating_sub(rng.below(s)) } else { (cur + rng.below(s)).min(max) };
                    cur
                }
            };
            v as u16
        })
        .collect()
}
