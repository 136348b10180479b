//! File builder: chunks of bytes with pointers between them, laid out in a seeded order with seeded gaps.
use simrt::rng::Rng;

pub type Cref = (usize, usize);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Base {
    File,
    At(Cref),
}

#[derive(Clone, Debug)]
struct Reloc {
    at: usize,
    to: Cref,
    base: Base,
    add: i64,
    width: u8,
    be: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum MK {
    Ptr,
    Count,
    Num,
    Type,
    Tag,
    Stream,
    Head,
    Text,
}

/// A field of the file that damage may aim at.
#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub kind: MK,
    pub off: usize,
    pub len: usize,
    pub be: bool,
}

#[derive(Default, Clone)]
struct Chunk {
    bytes: Vec<u8>,
    relocs: Vec<Reloc>,
    marks: Vec<Mark>,
    align: usize,
    /// merged into another chunk
    alias: Option<Cref>,
}

pub struct Fb {
    pub be: bool,
    chunks: Vec<Chunk>,
    pub rng: Rng,
    pub dirs: Vec<Dumped>,
}

/// Directory value
#[derive(Clone, Debug)]
pub enum V {
    B(Vec<u8>),
    A(Vec<u8>),
    S(Vec<u16>),
    L(Vec<u32>),
    R(Vec<(u32, u32)>),
    SB(Vec<i8>),
    U(Vec<u8>),
    SS(Vec<i16>),
    SL(Vec<i32>),
    SR(Vec<(i32, i32)>),
    F(Vec<f32>),
    D(Vec<f64>),
    /// LONG pointers, relative to the directory's base
    P(Vec<Cref>),
    /// IFD pointer type (13)
    P13(Cref),
    /// Undefined pointing at a chunk of that length
    UP(Cref, u32),
    /// four bytes pointing at a chunk, little endian whatever the directory
    BP(Cref),
    /// any type code
    X(i16, u32, Vec<u8>),
}

impl V {
    pub fn s(s: &str) -> V {
        let mut v = s.as_bytes().to_vec();
        v.push(0);
        V::A(v)
    }
    pub fn code(&self) -> i16 {
        match self {
            V::B(_) | V::BP(_) => 1,
            V::A(_) => 2,
            V::S(_) => 3,
            V::L(_) | V::P(_) => 4,
            V::R(_) => 5,
            V::SB(_) => 6,
            V::U(_) | V::UP(..) => 7,
            V::SS(_) => 8,
            V::SL(_) => 9,
            V::SR(_) => 10,
            V::F(_) => 11,
            V::D(_) => 12,
            V::P13(_) => 13,
            V::X(t, ..) => *t,
        }
    }
    pub fn count(&self) -> u32 {
        (match self {
            V::B(v) | V::A(v) | V::U(v) => v.len(),
            V::S(v) => v.len(),
            V::L(v) => v.len(),
            V::R(v) => v.len(),
            V::SB(v) => v.len(),
            V::SS(v) => v.len(),
            V::SL(v) => v.len(),
            V::SR(v) => v.len(),
            V::F(v) => v.len(),
            V::D(v) => v.len(),
            V::P(v) => v.len(),
            V::P13(_) => 1,
            V::BP(_) => 4,
            V::UP(_, n) => *n as usize,
            V::X(_, n, _) => *n as usize,
        }) as u32
    }
    /// The text of the value in a dump.
    pub fn dumped(&self) -> Option<String> {
        fn list<T: ToString>(v: &[T]) -> Option<String> {
            if v.len() == 1 {
                return Some(v[0].to_string());
            }
            let mut s: Vec<String> = v.iter().take(6).map(|x| x.to_string()).collect();
            if v.len() > 6 {
                s.push("...".into());
            }
            Some(format!("[ {} ]", s.join(", ")))
        }
        match self {
            V::B(v) => list(v),
            V::S(v) => list(v),
            V::L(v) => list(v),
            V::SB(v) => list(v),
            V::SS(v) => list(v),
            V::SL(v) => list(v),
            V::A(v) if v.last() == Some(&0) && v[..v.len() - 1].iter().all(|c| (0x20..0x7f).contains(c)) => Some(format!("\"{}\"", std::str::from_utf8(&v[..v.len() - 1]).unwrap())),
            _ => None,
        }
    }
    fn data(&self, be: bool) -> Vec<u8> {
        let mut o = vec![];
        let p16 = |o: &mut Vec<u8>, x: u16| o.extend_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() });
        let p32 = |o: &mut Vec<u8>, x: u32| o.extend_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() });
        let p64 = |o: &mut Vec<u8>, x: u64| o.extend_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() });
        match self {
            V::B(v) | V::A(v) | V::U(v) => o.extend_from_slice(v),
            V::S(v) => v.iter().for_each(|x| p16(&mut o, *x)),
            V::L(v) => v.iter().for_each(|x| p32(&mut o, *x)),
            V::R(v) => v.iter().for_each(|x| {
                p32(&mut o, x.0);
                p32(&mut o, x.1)
            }),
            V::SB(v) => v.iter().for_each(|x| o.push(*x as u8)),
            V::SS(v) => v.iter().for_each(|x| p16(&mut o, *x as u16)),
            V::SL(v) => v.iter().for_each(|x| p32(&mut o, *x as u32)),
            V::SR(v) => v.iter().for_each(|x| {
                p32(&mut o, x.0 as u32);
                p32(&mut o, x.1 as u32)
            }),
            V::F(v) => v.iter().for_each(|x| p32(&mut o, x.to_bits())),
            V::D(v) => v.iter().for_each(|x| p64(&mut o, x.to_bits())),
            V::P(v) => o.resize(v.len() * 4, 0),
            V::P13(_) | V::BP(_) => o.resize(4, 0),
            V::UP(..) => {}
            V::X(_, _, d) => o.extend_from_slice(d),
        }
        o
    }
}

#[derive(Clone, Debug, Default)]
pub struct Ifd {
    pub e: Vec<(u16, V)>,
    pub next: Option<Cref>,
}

impl Ifd {
    pub fn new() -> Ifd {
        Ifd::default()
    }
    pub fn add(&mut self, t: u16, v: V) -> &mut Ifd {
        self.e.retain(|x| x.0 != t);
        self.e.push((t, v));
        self
    }
    pub fn has(&self, t: u16) -> bool {
        self.e.iter().any(|x| x.0 == t)
    }
}

pub struct Built {
    pub bytes: Vec<u8>,
    pub marks: Vec<Mark>,
    addr: Vec<usize>,
    alias: Vec<Option<Cref>>,
    pub dirs: Vec<Dumped>,
}
/// A directory as a dump has to list it: tag, type, count and, if it is fixed, the value.
pub type Dumped = Vec<(u16, i16, u32, Option<String>)>;
impl Built {
    pub fn at(&self, c: Cref) -> usize {
        let mut c = c;
        while let Some(a) = self.alias[c.0] {
            c = (a.0, a.1 + c.1);
        }
        self.addr[c.0] + c.1
    }
}

impl Fb {
    pub fn new(be: bool, rng: Rng) -> Fb {
        Fb { be, chunks: vec![], rng, dirs: vec![] }
    }
    pub fn blob(&mut self, b: Vec<u8>) -> Cref {
        self.chunks.push(Chunk { bytes: b, align: 2, ..Default::default() });
        (self.chunks.len() - 1, 0)
    }
    pub fn stream(&mut self, b: Vec<u8>) -> Cref {
        let n = b.len();
        let c = self.blob(b);
        self.chunks[c.0].marks.push(Mark { kind: MK::Stream, off: 0, len: n, be: self.be });
        c
    }
    pub fn head(&mut self, b: Vec<u8>) -> Cref {
        let n = b.len();
        let c = self.blob(b);
        self.chunks[c.0].marks.push(Mark { kind: MK::Head, off: 0, len: n, be: self.be });
        c
    }
    pub fn len(&self, c: Cref) -> usize {
        self.chunks[c.0].bytes.len()
    }
    pub fn align(&mut self, c: Cref, a: usize) {
        self.chunks[c.0].align = a;
    }
    pub fn mark(&mut self, c: Cref, kind: MK, at: usize, len: usize, be: bool) {
        self.chunks[c.0].marks.push(Mark { kind, off: c.1 + at, len, be });
    }
    /// Write a 4-byte pointer to `to` at `c`.
    pub fn ptr(&mut self, c: Cref, to: Cref, base: Base, be: bool) {
        self.ptr_add(c, to, base, be, 0)
    }
    pub fn ptr_add(&mut self, c: Cref, to: Cref, base: Base, be: bool, add: i64) {
        let ch = &mut self.chunks[c.0];
        ch.relocs.push(Reloc { at: c.1, to, base, add, width: 4, be });
        ch.marks.push(Mark { kind: MK::Ptr, off: c.1, len: 4, be });
    }
    pub fn bytes_mut(&mut self, c: Cref) -> &mut Vec<u8> {
        &mut self.chunks[c.0].bytes
    }
    /// Append chunk b (with everything in it) to chunk a at the given alignment; b stays addressable.
    pub fn append(&mut self, a: Cref, b: Cref, align: usize) {
        assert!(b.1 == 0 && self.chunks[b.0].alias.is_none() && a.0 != b.0);
        let bc = std::mem::take(&mut self.chunks[b.0]);
        let ac = &mut self.chunks[a.0];
        while ac.bytes.len() % align.max(1) != 0 {
            ac.bytes.push(0);
        }
        let d = ac.bytes.len();
        ac.bytes.extend_from_slice(&bc.bytes);
        for mut r in bc.relocs {
            r.at += d;
            ac.relocs.push(r);
        }
        for mut m in bc.marks {
            m.off += d;
            ac.marks.push(m);
        }
        self.chunks[b.0].alias = Some((a.0, d));
    }
    fn p16(&self, o: &mut Vec<u8>, x: u16) {
        o.extend_from_slice(&if self.be { x.to_be_bytes() } else { x.to_le_bytes() })
    }
    fn p32(&self, o: &mut Vec<u8>, x: u32) {
        o.extend_from_slice(&if self.be { x.to_be_bytes() } else { x.to_le_bytes() })
    }
    /// Serialise a directory; its external values become chunks of their own.
    /// Returns the directory chunk and the value chunks.
    pub fn ifd(&mut self, d: &Ifd, base: Base) -> (Cref, Vec<Cref>) {
        let be = self.be;
        self.dirs.push(d.e.iter().map(|(t, v)| (*t, v.code(), v.count(), v.dumped())).collect());
        let mut ents = d.e.clone();
        // the library keeps a map: the order in the file does not matter
        // (but for Minolta's maker note, known by its first entry)
        if self.rng.chance(1, 4) && !d.has(0) {
            self.rng.shuffle(&mut ents);
        } else {
            ents.sort_by_key(|e| e.0);
        }
        let mut o = vec![];
        self.p16(&mut o, ents.len() as u16);
        let c = self.blob(vec![]);
        let mut ext = vec![];
        let mut marks = vec![Mark { kind: MK::Count, off: 0, len: 2, be }];
        let mut ptrs = vec![];
        let mut le_ptrs = vec![];
        for (tag, v) in &ents {
            let at = o.len();
            self.p16(&mut o, *tag);
            self.p16(&mut o, v.code() as u16);
            self.p32(&mut o, v.count());
            marks.push(Mark { kind: MK::Tag, off: at, len: 2, be });
            marks.push(Mark { kind: MK::Type, off: at + 2, len: 2, be });
            marks.push(Mark { kind: MK::Count, off: at + 4, len: 4, be });
            let data = v.data(be);
            if let V::UP(to, _) = v {
                o.extend_from_slice(&[0; 4]);
                ptrs.push((at + 8, *to));
            } else if data.len() <= 4 {
                let n = data.len();
                o.extend_from_slice(&data);
                o.resize(at + 12, 0);
                match v {
                    V::P(t) => {
                        if let Some(t) = t.first() {
                            ptrs.push((at + 8, *t))
                        }
                    }
                    V::P13(t) => ptrs.push((at + 8, *t)),
                    V::BP(t) => le_ptrs.push((at + 8, *t)),
                    V::A(_) => marks.push(Mark { kind: MK::Text, off: at + 8, len: 4, be }),
                    V::S(_) | V::SS(_) => marks.push(Mark { kind: MK::Num, off: at + 8, len: n.clamp(1, 2), be }),
                    _ => marks.push(Mark { kind: MK::Num, off: at + 8, len: n.max(1), be }),
                }
            } else {
                o.extend_from_slice(&[0; 4]);
                let n = data.len();
                let x = self.blob(data);
                match v {
                    V::P(t) => {
                        for (i, t) in t.iter().enumerate() {
                            self.ptr((x.0, i * 4), *t, base, be);
                        }
                    }
                    V::A(_) => self.mark(x, MK::Text, 0, n, be),
                    V::S(_) | V::SS(_) => self.mark(x, MK::Num, 0, 2, be),
                    V::L(_) | V::R(_) | V::SR(_) => self.mark(x, MK::Num, 0, 4, be),
                    _ => {}
                }
                ext.push(x);
                ptrs.push((at + 8, x));
            }
        }
        let at = o.len();
        o.extend_from_slice(&[0; 4]);
        self.chunks[c.0].bytes = o;
        self.chunks[c.0].marks = marks;
        for (a, t) in ptrs {
            self.ptr((c.0, a), t, base, be);
        }
        for (a, t) in le_ptrs {
            self.ptr((c.0, a), t, base, false);
        }
        if let Some(n) = d.next {
            self.ptr((c.0, at), n, base, be);
        } else {
            self.mark(c, MK::Ptr, at, 4, be);
        }
        (c, ext)
    }
    /// Directory whose values are stored right behind it.
    pub fn ifd_packed(&mut self, d: &Ifd, base: Base) -> Cref {
        let (c, ext) = self.ifd(d, base);
        for x in ext {
            self.append(c, x, 2);
        }
        c
    }
    /// Point the next-directory field of directory chunk `d` at `to`.
    pub fn chain(&mut self, d: Cref, to: Cref, base: Base) {
        let be = self.be;
        let n = {
            let b = &self.chunks[d.0].bytes;
            if be {
                u16::from_be_bytes([b[0], b[1]])
            } else {
                u16::from_le_bytes([b[0], b[1]])
            }
        } as usize;
        let at = 2 + n * 12;
        self.chunks[d.0].relocs.retain(|r| r.at != at);
        self.ptr((d.0, at), to, base, be);
    }
    fn resolve(&self, mut c: Cref) -> Cref {
        while let Some(a) = self.chunks[c.0].alias {
            c = (a.0, a.1 + c.1);
        }
        c
    }
    /// Lay the chunks out: `first` at 0, the others shuffled with gaps; `last` at the end.
    pub fn build(mut self, first: Cref, last: Option<Cref>, shuffle: bool, max_gap: usize) -> Built {
        let mut order: Vec<usize> = (0..self.chunks.len()).filter(|i| self.chunks[*i].alias.is_none() && *i != first.0 && last.map(|l| l.0) != Some(*i)).collect();
        let mut rng = self.rng.clone();
        if shuffle {
            rng.shuffle(&mut order);
        }
        order.insert(0, first.0);
        if let Some(l) = last {
            order.push(l.0);
        }
        let mut addr = vec![0usize; self.chunks.len()];
        let mut bytes: Vec<u8> = vec![];
        for (k, i) in order.iter().enumerate() {
            if k > 0 && max_gap > 0 && rng.chance(1, 3) {
                let g = rng.us(max_gap + 1);
                let f = *rng.pick(&[0u8, 0xff, 0x5a]);
                bytes.resize(bytes.len() + g, f);
            }
            let al = self.chunks[*i].align.max(1);
            while bytes.len() % al != 0 {
                bytes.push(0);
            }
            addr[*i] = bytes.len();
            bytes.extend_from_slice(&self.chunks[*i].bytes);
        }
        let mut marks = vec![];
        for i in order {
            for m in &self.chunks[i].marks {
                let mut m = *m;
                m.off += addr[i];
                marks.push(m);
            }
            for r in &self.chunks[i].relocs {
                let t = self.resolve(r.to);
                let mut v = (addr[t.0] + t.1) as i64 + r.add;
                if let Base::At(b) = r.base {
                    let b = self.resolve(b);
                    v -= (addr[b.0] + b.1) as i64;
                }
                let p = addr[i] + r.at;
                let _ = r.width;
                let w = if r.be { (v as u32).to_be_bytes() } else { (v as u32).to_le_bytes() };
                bytes[p..p + 4].copy_from_slice(&w);
            }
        }
        let alias = self.chunks.iter_mut().map(|c| c.alias).collect();
        Built { bytes, marks, addr, alias, dirs: self.dirs }
    }
}
