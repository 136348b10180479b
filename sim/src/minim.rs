//! Reduce a violating scenario, keeping its class of violation.
use crate::scen::{Mut, Scen};
use crate::worker::{self, Out};
use std::time::Instant;

struct M<'a> {
    class: &'a str,
    best: Scen,
    out: Out,
    left: u32,
    until: Instant,
}
impl M<'_> {
    fn try_(&mut self, s: Scen) -> bool {
        if self.left == 0 || Instant::now() > self.until || s == self.best {
            return false;
        }
        self.left -= 1;
        let o = worker::run(&s);
        if o.viol.as_ref().map(|v| v.class == self.class).unwrap_or(false) {
            self.best = s;
            self.out = o;
            return true;
        }
        false
    }
    /// Drop chunks of a list.
    fn ddmin(&mut self, len: impl Fn(&Scen) -> usize, cut: impl Fn(&mut Scen, usize, usize)) {
        let mut n = len(&self.best).div_ceil(2);
        while n > 0 {
            let mut i = 0;
            while i < len(&self.best) {
                let mut s = self.best.clone();
                let e = (i + n).min(len(&s));
                cut(&mut s, i, e);
                if !self.try_(s) {
                    i += n;
                }
            }
            if n == 1 {
                break;
            }
            n = n.div_ceil(2);
        }
    }
}

pub fn minimise(s: Scen, class: &str) -> (Scen, Out) {
    let out = worker::run(&s);
    let mut m = M { class, best: s.clone(), out: out.clone(), left: 600, until: Instant::now() + std::time::Duration::from_secs(60) };
    if out.viol.is_none() {
        return (s, out);
    }
    // the schedule as a list of choices instead of a seed
    if !out.tape.is_empty() {
        let mut t = s.clone();
        t.tape = Some(out.tape.clone());
        m.try_(t);
    }
    for _ in 0..2 {
        m.ddmin(|s| s.ops.len(), |s, a, b| {
            s.ops.drain(a..b);
        });
        m.ddmin(|s| s.faults.len(), |s, a, b| {
            s.faults.drain(a..b);
        });
        for k in 0..m.best.files.len() {
            m.ddmin(move |s| s.files[k].muts.len(), move |s, a, b| {
                s.files[k].muts.drain(a..b);
            });
        }
    }
    for f in [0u8, 1, 2, 3, 4] {
        let mut t = m.best.clone();
        match f {
            0 => t.log = 0,
            1 => t.poison = 0,
            2 => t.hash_seed = 0,
            3 => {
                t.width = 1;
                t.tape = None;
            }
            _ => {
                if t.width > 2 {
                    t.width = 2
                }
            }
        }
        m.try_(t);
    }
    // shorter schedules
    if let Some(t) = m.best.tape.clone() {
        let mut n = t.len();
        while n > 0 {
            n /= 2;
            let mut s = m.best.clone();
            s.tape = Some(t[..n].to_vec());
            if !m.try_(s) {
                break;
            }
        }
        m.ddmin(|s| s.tape.as_ref().map(|t| t.iter().filter(|x| **x != 0).count()).unwrap_or(0), |s, a, b| {
            if let Some(t) = &mut s.tape {
                let mut k = 0;
                for x in t.iter_mut().filter(|x| **x != 0) {
                    if k >= a && k < b {
                        *x = 0;
                    }
                    k += 1;
                }
            }
        });
    }
    // single bytes of damage
    for k in 0..m.best.files.len() {
        for j in 0..m.best.files[k].muts.len() {
            if let Mut::Set(at, v) = m.best.files[k].muts[j].clone() {
                for i in 0..v.len().min(8) {
                    let mut s = m.best.clone();
                    s.files[k].muts[j] = Mut::Set(at + i, vec![v[i]]);
                    if v.len() > 1 && m.try_(s) {
                        break;
                    }
                }
            }
        }
    }
    // numbers of faults
    for j in 0..m.best.faults.len() {
        for v in [1u64, 0] {
            let mut s = m.best.clone();
            s.faults[j].b = v;
            m.try_(s);
            let mut s = m.best.clone();
            s.faults[j].a = v;
            m.try_(s);
        }
    }
    (m.best, m.out)
}
