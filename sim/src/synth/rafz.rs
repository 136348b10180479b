//! Fujifilm's compression of raw images.
//! `code` runs the predictor over a strip, picks the code of each sample that comes closest to the
//! wanted one, and keeps what decoding gives.
use super::enc::BitW;
use simrt::rng::Rng;

pub const WIDE: usize = 768;

fn log2(mut n: i32) -> u32 {
    // bits for as many states
    let mut b = 0;
    n -= 1;
    while n > 0 {
        n >>= 1;
        b += 1;
    }
    b.max(1)
}

struct Quant {
    base: i32,
    points: [i32; 5],
    bits: u32,
    values: i32,
    weight: i32,
    limit: i32,
}

impl Quant {
    fn level(&self, v: i32) -> i32 {
        let q = &self.points;
        let a = v.abs();
        let l = if a <= q[0] { 0 } else { 1 + q[1..4].iter().filter(|p| a >= **p).count() as i32 };
        if v < 0 {
            -l
        } else {
            l
        }
    }

    fn new(base: i32, max: i32, weight: i32, limit: i32, points: [i32; 5]) -> Quant {
        let values = (max + 2 * base) / (2 * base + 1) + 1;
        Quant { base, points, bits: log2(values), values, weight, limit }
    }

    /// The one of a line.
    fn main(base: i32, max: i32) -> Quant {
        let mut p = [base, 3 * base + 18, 5 * base + 67, 7 * base + 276, max];
        if p[1] > max {
            p[1] = base + 1;
        }
        for i in 2..4 {
            if p[i] < p[i - 1] || p[i] > max {
                p[i] = p[i - 1];
            }
        }
        Quant::new(base, max, 9, 0, p)
    }
}

#[derive(Clone, Copy, Default)]
struct Grad(i32, i32);

struct Codec<'a> {
    o: BitW,
    max: i32,
    lim: u32,
    q: Vec<Quant>,
    /// by parity, set and table (0 the line's)
    g: Vec<Vec<Vec<Vec<Grad>>>>,
    /// red 0..5, green 5..13, blue 13..18
    l: Vec<Vec<u16>>,
    want: Vec<Vec<Option<u16>>>,
    rng: &'a mut Rng,
    escapes: usize,
}

const R: usize = 0;
const G: usize = 5;
const B: usize = 13;

impl Codec<'_> {
    /// `c` is coded with the gradient `k`
    fn put(&mut self, odd: usize, set: usize, t: usize, k: usize, c: i32) {
        let q = &self.q[t];
        let u = if c < 0 { -1 - 2 * c } else { 2 * c };
        assert!(u >= 0 && u < q.values);
        let g = &mut self.g[odd][set][t][k];
        let mut d = 0;
        while d < 15 && g.1 << d < g.0 {
            d += 1;
        }
        let top = self.lim - q.bits - 1;
        let mut zeros = u as u32 >> d;
        let esc = zeros >= top;
        if esc {
            zeros = top;
            self.escapes += 1;
        }
        for _ in 0..zeros {
            self.o.put(0, 1);
        }
        self.o.put(1, 1);
        if esc {
            self.o.put(u as u32 - 1, q.bits);
        } else if d > 0 {
            self.o.put(u as u32 & ((1 << d) - 1), d);
        }
        g.0 += c.abs();
        if g.1 == 64 {
            g.0 >>= 1;
            g.1 >>= 1;
        }
        g.1 += 1;
    }

    fn sample(&mut self, odd: usize, set: usize, line: usize, pos: usize, coded: bool) {
        let i = pos + 1;
        let up = &self.l[line - 1];
        let (b, c, d) = (up[i] as i32, up[i - 1] as i32, up[i + 1] as i32);
        // the two differences and the prediction
        let (x, y, p);
        if odd == 0 {
            let f = self.l[line - 2][i] as i32;
            let (cb, fb, db) = ((c - b).abs(), (f - b).abs(), (d - b).abs());
            p = (2 * b
                + if cb > fb && cb > db {
                    f + d
                } else if db > cb && db > fb {
                    f + c
                } else {
                    d + c
                })
                >> 2;
            (x, y) = (b - f, c - b);
        } else {
            let (a, g) = (self.l[line][i - 1] as i32, self.l[line][i + 1] as i32);
            p = if b > c && b > d || b < c && b < d { (g + a + 2 * b) >> 2 } else { (a + g) >> 1 };
            (x, y) = (b - c, c - a);
        }
        if !coded {
            self.l[line][i] = p as u16;
            return;
        }
        let line_base = self.q[0].base;
        let t = (1..self.q.len()).find(|t| line_base >= *t as i32 && x.abs() + y.abs() <= self.q[*t].limit).unwrap_or(0);
        let q = &self.q[t];
        let k = q.weight * q.level(x) + q.level(y);
        let sign = if k < 0 { -1 } else { 1 };
        let step = 2 * q.base + 1;
        let want = self.want[line][pos];
        let mut n = match want {
            Some(v) => {
                let d = v as i32 - p;
                (d + d.signum() * q.base) / step
            }
            // nothing is there
            None => 0,
        };
        // counted modulo the number of values
        let hi = (q.values - 1) / 2;
        let lo = -(q.values / 2);
        n *= sign;
        if n > hi {
            n -= q.values;
        } else if n < lo {
            n += q.values;
        }
        let n = n.clamp(lo, hi);
        let mut v = p + sign * n * step;
        if v < -q.base {
            v += q.values * step;
        } else if v > q.base + self.max {
            v -= q.values * step;
        }
        let v = v.clamp(0, self.max) as u16;
        if let Some(w) = want {
            assert!((w as i32 - v as i32).abs() <= q.base, "{w} as {v} with {}", q.base);
        }
        self.l[line][i] = v;
        self.put(odd, set, t, k.unsigned_abs() as usize, n);
    }

    fn extend(&mut self, w: usize, lines: std::ops::Range<usize>) {
        for i in lines {
            self.l[i][0] = self.l[i - 1][1];
            self.l[i][w + 1] = self.l[i - 1][w];
        }
    }
}

pub struct Image<'a> {
    pub w: usize,
    pub h: usize,
    pub bits: u32,
    pub px: &'a [u16],
    /// colours, 2x2 or 6x6
    pub cfa: &'a [u8],
    /// losses by line of every strip
    pub lossy: Option<Vec<Vec<u8>>>,
}

/// The data, and the samples it holds.
pub fn compress(rng: &mut Rng, im: &Image) -> (Vec<u8>, Vec<u16>, usize) {
    let side = if im.cfa.len() == 36 { 6 } else { 2 };
    let xtrans = side == 6;
    let strips = im.w.div_ceil(WIDE);
    let lines = im.h / 6;
    let max = (1i32 << im.bits) - 1;
    let lw = if xtrans { WIDE * 2 / 3 } else { WIDE / 2 };
    let mut out = vec![0u16; im.w * im.h];
    let mut data = vec![];
    let mut escapes = 0;
    for s in 0..strips {
        let n = WIDE.min(im.w - s * WIDE);
        let mut c = Codec { o: BitW::default(), max, lim: 4 * im.bits, q: vec![], g: vec![], l: vec![vec![0; lw + 2]; 18], want: vec![], rng, escapes: 0 };
        let first = |v: i32| Grad(2.max((v + 32) >> 6), 1);
        let mut last = -1;
        if im.lossy.is_some() {
            c.q.push(Quant::main(0, max));
            for (i, p) in [[0, 18, 67, 276], [1, 21, 72, 283], [2, 24, 77, 290]].iter().enumerate() {
                c.q.push(Quant::new(i as i32, max, 3, 5 + i as i32, [p[0], p[1], p[2], p[3], max]));
            }
        } else {
            c.q.push(Quant::main(0, max));
        }
        c.g = vec![vec![c.q.iter().enumerate().map(|(i, q)| vec![first(q.values); if i == 0 { 41 } else { 5 }]).collect(); 3]; 2];
        for line in 0..lines {
            if let Some(b) = &im.lossy {
                let b = b[s][line] as i32;
                if b != last {
                    last = b;
                    c.q[0] = Quant::main(b, max);
                    for g in c.g.iter_mut().flatten() {
                        g[0] = vec![first(c.q[0].values); 41];
                    }
                }
            }
            // where the samples go
            let at = |row: usize, col: usize| -> (usize, usize) {
                let l = match im.cfa[row % side * side + col % side] {
                    0 => R + 2 + row / 2,
                    1 => G + 2 + row,
                    _ => B + 2 + row / 2,
                };
                let p = if xtrans { ((col * 2 / 3) & !1 | (col % 3) & 1) + ((col % 3) >> 1) } else { col / 2 };
                (l, p)
            };
            let mut want = vec![vec![None; lw]; 18];
            for row in 0..6 {
                for col in 0..n {
                    let (l, p) = at(row, col);
                    want[l][p] = Some(im.px[(line * 6 + row) * im.w + s * WIDE + col]);
                }
            }
            c.want = want;
            let k = &mut c;
            for pass in 0..6 {
                let half = pass / 2;
                // two lines at a time: red and green, green and blue
                let (a, b) = if pass % 2 == 0 { (R + 2 + half, G + 2 + pass) } else { (G + 2 + pass, B + 2 + half) };
                let set = pass % 3;
                let (mut even, mut odd) = (0, 1);
                while even < lw || odd < lw {
                    if even < lw {
                        // the samples between those of the X-Trans pattern
                        let m = even & 3;
                        let (ca, cb) = match pass {
                            _ if !xtrans => (true, true),
                            0 => (false, true),
                            1 => (true, false),
                            2 => (m != 0, false),
                            3 => (true, m == 0),
                            4 => (m == 0, true),
                            _ => (false, m != 0),
                        };
                        k.sample(0, set, a, even, ca);
                        k.sample(0, set, b, even, cb);
                        even += 2;
                    }
                    if even > 8 {
                        k.sample(1, set, a, odd, true);
                        k.sample(1, set, b, odd, true);
                        odd += 2;
                    }
                }
                if pass % 2 == 0 {
                    k.extend(lw, R + 2..R + 5);
                } else {
                    k.extend(lw, B + 2..B + 5);
                }
                k.extend(lw, G + 2..G + 8);
            }
            for (to, from) in [(R, R + 3), (R + 1, R + 4), (G, G + 6), (G + 1, G + 7), (B, B + 3), (B + 1, B + 4)] {
                k.l[to] = k.l[from].clone();
            }
            for row in 0..6 {
                for col in 0..n {
                    let (l, p) = at(row, col);
                    out[(line * 6 + row) * im.w + s * WIDE + col] = k.l[l][p + 1];
                }
            }
            for (f, n) in [(R + 2, 3), (G + 2, 6), (B + 2, 3)] {
                for l in f..f + n {
                    k.l[l].fill(0);
                }
                k.l[f][0] = k.l[f - 1][1];
                k.l[f][lw + 1] = k.l[f - 1][lw];
            }
        }
        escapes += c.escapes;
        c.o.flush(false);
        let mut o = c.o.out;
        let pad = c.rng.us(4);
        let fill = c.rng.u8();
        o.resize(o.len().next_multiple_of(4) + 4 * pad, fill);
        data.push(o);
    }
    let mut o = vec![0x49, 0x53, im.lossy.is_none() as u8, if xtrans { 16 } else { 0 }, im.bits as u8];
    for v in [im.h, strips * WIDE, im.w, WIDE] {
        o.extend_from_slice(&(v as u16).to_be_bytes());
    }
    o.push(strips as u8);
    o.extend_from_slice(&(lines as u16).to_be_bytes());
    let t = o.len();
    for d in &data {
        o.extend_from_slice(&(d.len() as u32).to_be_bytes());
    }
    o.resize(t + (strips * 4).next_multiple_of(16), 0);
    if let Some(b) = &im.lossy {
        for b in b {
            o.extend_from_slice(b);
            o.resize(o.len() + b.len().next_multiple_of(16) - b.len(), 0);
        }
    }
    for d in data {
        o.extend(d);
    }
    (o, out, escapes)
}
