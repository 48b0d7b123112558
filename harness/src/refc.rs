//! Independent reference implementation of the LASzip coders, written from the
//! LASzip algorithm description (straightforward, unoptimised): arithmetic
//! encoder / decoder, adaptive models, integer coder, the item encoders of all
//! versions, the chunk layouts and the chunk table.
//!
//! `over` lets the encoder produce other conforming streams than the canonical
//! one (changed-flags set although nothing changed, layers written although
//! unchanged, gps times written in full), which a decoder must accept.

use crate::engine::Rng;
use crate::spec::{Item, Kind, Spec};

// ---------------------------------------------------------------- models

#[derive(Clone)]
pub struct Sym {
    n: usize,
    count: Vec<u32>,
    dist: Vec<u32>,
    total: u32,
    cycle: u32,
    until: u32,
}
impl Sym {
    pub fn new(n: usize) -> Sym {
        let mut m = Sym {
            n,
            count: vec![1; n],
            dist: vec![0; n],
            total: 0,
            cycle: n as u32,
            until: 0,
        };
        m.update();
        m.cycle = (n as u32 + 6) >> 1;
        m.until = m.cycle;
        m
    }
    /// tables given at initialisation
    pub fn with_table(n: usize, table: &[u32]) -> Sym {
        let mut m = Sym::new(n);
        m.count.copy_from_slice(table);
        m.total = 0;
        m.cycle = n as u32;
        m.update();
        m.cycle = (n as u32 + 6) >> 1;
        m.until = m.cycle;
        m
    }
    fn update(&mut self) {
        self.total += self.cycle;
        if self.total > 1 << 15 {
            self.total = 0;
            for c in &mut self.count {
                *c = (*c + 1) >> 1;
                self.total += *c;
            }
        }
        let scale = 0x8000_0000u32 / self.total;
        let mut sum = 0u32;
        for k in 0..self.n {
            self.dist[k] = scale.wrapping_mul(sum) >> 16;
            sum += self.count[k];
        }
        self.cycle = (5 * self.cycle) >> 2;
        let max = (self.n as u32 + 6) << 3;
        if self.cycle > max {
            self.cycle = max;
        }
        self.until = self.cycle;
    }
    fn tick(&mut self, s: usize) {
        self.count[s] += 1;
        self.until -= 1;
        if self.until == 0 {
            self.update();
        }
    }
}

#[derive(Clone)]
pub struct Bit {
    c0: u32,
    n: u32,
    prob: u32,
    cycle: u32,
    until: u32,
}
impl Bit {
    pub fn new() -> Bit {
        Bit {
            c0: 1,
            n: 2,
            prob: 1 << 12,
            cycle: 4,
            until: 4,
        }
    }
    fn tick(&mut self) {
        self.until -= 1;
        if self.until > 0 {
            return;
        }
        self.n += self.cycle;
        if self.n > 1 << 13 {
            self.n = (self.n + 1) >> 1;
            self.c0 = (self.c0 + 1) >> 1;
            if self.c0 == self.n {
                self.n += 1;
            }
        }
        let scale = 0x8000_0000u32 / self.n;
        self.prob = self.c0.wrapping_mul(scale) >> 18;
        self.cycle = ((5 * self.cycle) >> 2).min(64);
        self.until = self.cycle;
    }
}

// ---------------------------------------------------------------- encoder

const MIN: u32 = 1 << 24;

#[derive(Clone)]
pub struct Enc {
    pub out: Vec<u8>,
    base: u32,
    len: u32,
}
impl Enc {
    pub fn new() -> Enc {
        Enc {
            out: vec![],
            base: 0,
            len: u32::MAX,
        }
    }
    fn carry(&mut self) {
        let mut i = self.out.len();
        loop {
            i -= 1;
            if self.out[i] == 0xFF {
                self.out[i] = 0;
            } else {
                self.out[i] += 1;
                return;
            }
        }
    }
    fn add(&mut self, x: u32) {
        let (b, o) = self.base.overflowing_add(x);
        self.base = b;
        if o {
            self.carry();
        }
    }
    fn renorm(&mut self) {
        loop {
            self.out.push((self.base >> 24) as u8);
            self.base <<= 8;
            self.len <<= 8;
            if self.len >= MIN {
                return;
            }
        }
    }
    fn settle(&mut self) {
        if self.len < MIN {
            self.renorm();
        }
    }
    pub fn sym(&mut self, m: &mut Sym, s: u32) {
        let s = s as usize;
        assert!(s < m.n, "reference encoder: symbol {s} of {}", m.n);
        if s == m.n - 1 {
            let x = m.dist[s].wrapping_mul(self.len >> 15);
            self.add(x);
            self.len -= x;
        } else {
            self.len >>= 15;
            let x = m.dist[s] * self.len;
            self.add(x);
            self.len = m.dist[s + 1] * self.len - x;
        }
        self.settle();
        m.tick(s);
    }
    pub fn bit(&mut self, m: &mut Bit, b: u32) {
        let x = m.prob * (self.len >> 13);
        if b == 0 {
            self.len = x;
            m.c0 += 1;
        } else {
            self.add(x);
            self.len -= x;
        }
        self.settle();
        m.tick();
    }
    pub fn raw_bit(&mut self, b: u32) {
        self.len >>= 1;
        self.add(b.wrapping_mul(self.len));
        self.settle();
    }
    pub fn bits(&mut self, mut n: u32, mut v: u32) {
        if n > 19 {
            self.short(v as u16);
            v >>= 16;
            n -= 16;
        }
        self.len >>= n;
        self.add(v.wrapping_mul(self.len));
        self.settle();
    }
    pub fn byte(&mut self, v: u8) {
        self.len >>= 8;
        self.add((v as u32).wrapping_mul(self.len));
        self.settle();
    }
    pub fn short(&mut self, v: u16) {
        self.len >>= 16;
        self.add((v as u32).wrapping_mul(self.len));
        self.settle();
    }
    pub fn int(&mut self, v: u32) {
        self.short(v as u16);
        self.short((v >> 16) as u16);
    }
    pub fn int64(&mut self, v: u64) {
        self.int(v as u32);
        self.int((v >> 32) as u32);
    }
    pub fn done(mut self) -> Vec<u8> {
        let another = if self.len > 2 * MIN {
            self.add(MIN);
            self.len = MIN >> 1;
            true
        } else {
            self.add(MIN >> 1);
            self.len = MIN >> 9;
            false
        };
        self.renorm();
        self.out.extend([0, 0]);
        if another {
            self.out.push(0);
        }
        self.out
    }
}

// ---------------------------------------------------------------- decoder

pub struct Dec<'a> {
    src: &'a [u8],
    pos: usize,
    val: u32,
    len: u32,
    bad: bool,
}
impl<'a> Dec<'a> {
    pub fn new(src: &'a [u8]) -> Dec<'a> {
        let mut d = Dec {
            src,
            pos: 0,
            val: 0,
            len: u32::MAX,
            bad: false,
        };
        for _ in 0..4 {
            d.val = (d.val << 8) | d.next();
        }
        d.bad = d.val >= d.len;
        d
    }
    /// the source was no (whole) output of an encoder: it ended, or held a value none reaches
    pub fn wrong(&self) -> bool {
        self.bad || self.pos > self.src.len()
    }
    fn next(&mut self) -> u32 {
        let b = self.src.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        b as u32
    }
    /// bytes taken from the source so far
    pub fn consumed(&self) -> usize {
        self.pos
    }
    fn settle(&mut self) {
        while self.len < MIN {
            self.val = (self.val << 8) | self.next();
            self.len <<= 8;
        }
    }
    pub fn sym(&mut self, m: &mut Sym) -> u32 {
        let whole = self.len;
        self.len >>= 15;
        let mut s = m.n - 1;
        while m.dist[s] * self.len > self.val {
            s -= 1;
        }
        let x = m.dist[s] * self.len;
        let y = if s + 1 == m.n {
            whole
        } else {
            m.dist[s + 1] * self.len
        };
        self.val -= x;
        self.len = y - x;
        self.settle();
        m.tick(s);
        s as u32
    }
    pub fn bit(&mut self, m: &mut Bit) -> u32 {
        let x = m.prob * (self.len >> 13);
        let b = (self.val >= x) as u32;
        if b == 0 {
            self.len = x;
            m.c0 += 1;
        } else {
            self.val -= x;
            self.len -= x;
        }
        self.settle();
        m.tick();
        b
    }
    pub fn bits(&mut self, mut n: u32) -> u32 {
        let mut low = 0;
        let mut sh = 0;
        if n > 19 {
            low = self.bits(16);
            n -= 16;
            sh = 16;
        }
        if self.wrong() {
            return 0;
        }
        self.len >>= n;
        let v = self.val / self.len;
        if v >= 1 << n {
            self.bad = true;
            return 0;
        }
        self.val -= v * self.len;
        self.settle();
        (v << sh) | low
    }
}

// ---------------------------------------------------------------- integers

pub struct Ic {
    corr_bits: u32,
    range: u32,
    min: i32,
    max: i32,
    bits_high: u32,
    kmodel: Vec<Sym>,
    zero: Bit,
    corr: Vec<Sym>,
    k: u32,
}
impl Ic {
    pub fn new(bits: u32, ctx: usize) -> Ic {
        Ic::full(bits, ctx, 8, 0)
    }
    pub fn full(bits: u32, ctx: usize, bits_high: u32, range: u32) -> Ic {
        let (corr_bits, r, min, max);
        if range != 0 {
            let mut b = 0;
            let mut x = range;
            while x != 0 {
                x >>= 1;
                b += 1;
            }
            if range == 1u32 << (b - 1) {
                b -= 1;
            }
            corr_bits = b;
            r = range;
            min = -((range / 2) as i32);
            max = (min as i64 + range as i64 - 1) as i32;
        } else if bits > 0 && bits < 32 {
            corr_bits = bits;
            r = 1 << bits;
            min = -((r / 2) as i32);
            max = (min as i64 + r as i64 - 1) as i32;
        } else {
            corr_bits = 32;
            r = 0;
            min = i32::MIN;
            max = i32::MAX;
        }
        Ic {
            corr_bits,
            range: r,
            min,
            max,
            bits_high,
            kmodel: (0..ctx).map(|_| Sym::new(corr_bits as usize + 1)).collect(),
            zero: Bit::new(),
            corr: (1..=corr_bits)
                .map(|i| Sym::new(1usize << i.min(bits_high)))
                .collect(),
            k: 0,
        }
    }
    pub fn k(&self) -> u32 {
        self.k
    }
    pub fn put(&mut self, e: &mut Enc, pred: i32, real: i32, ctx: usize) {
        let mut c = real.wrapping_sub(pred);
        if c < self.min {
            c = c.wrapping_add(self.range as i32);
        } else if c > self.max {
            c = c.wrapping_sub(self.range as i32);
        }
        let mut c1 = if c <= 0 {
            c.wrapping_neg() as u32
        } else {
            c as u32 - 1
        };
        let mut k = 0;
        while c1 != 0 {
            c1 >>= 1;
            k += 1;
        }
        self.k = k;
        e.sym(&mut self.kmodel[ctx], k);
        if k == 0 {
            e.bit(&mut self.zero, c as u32);
        } else if k < 32 {
            let v = if c < 0 {
                c.wrapping_add(((1u32 << k) - 1) as i32)
            } else {
                c - 1
            } as u32;
            let m = &mut self.corr[k as usize - 1];
            if k <= self.bits_high {
                e.sym(m, v);
            } else {
                let low = k - self.bits_high;
                e.sym(m, v >> low);
                e.bits(low, v & ((1 << low) - 1));
            }
        }
    }
    pub fn get(&mut self, d: &mut Dec, pred: i32, ctx: usize) -> i32 {
        let k = d.sym(&mut self.kmodel[ctx]);
        self.k = k;
        let c: i32 = if k == 0 {
            d.bit(&mut self.zero) as i32
        } else if k < 32 {
            let m = &mut self.corr[k as usize - 1];
            let v = if k <= self.bits_high {
                d.sym(m)
            } else {
                let low = k - self.bits_high;
                let hi = d.sym(m);
                (hi << low) | d.bits(low)
            };
            if v >= 1 << (k - 1) {
                (v as i32).wrapping_add(1)
            } else {
                (v as i32).wrapping_sub(((1u32 << k) - 1) as i32)
            }
        } else {
            self.min
        };
        let mut r = pred.wrapping_add(c);
        if self.corr_bits < 32 || self.range != 0 {
            if r < 0 {
                r = r.wrapping_add(self.range as i32);
            } else if (r as u32) >= self.range {
                r = r.wrapping_sub(self.range as i32);
            }
        }
        r
    }
}

// ---------------------------------------------------------------- helpers

fn u16a(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
fn i32a(b: &[u8], o: usize) -> i32 {
    i32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
fn u64a(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
fn fold(x: i32) -> u32 {
    (x & 0xFF) as u32
}
fn clamp8(x: i32) -> i32 {
    x.clamp(0, 255)
}
fn quantize(x: f32) -> i32 {
    if x >= 0.0 {
        (x + 0.5) as i32
    } else {
        (x - 0.5) as i32
    }
}

#[derive(Clone, Copy)]
struct Median5 {
    v: [i32; 5],
    high: bool,
}
impl Median5 {
    fn new() -> Self {
        Median5 {
            v: [0; 5],
            high: true,
        }
    }
    fn get(&self) -> i32 {
        self.v[2]
    }
    fn add(&mut self, x: i32) {
        let v = &mut self.v;
        if self.high {
            if x < v[2] {
                v[4] = v[3];
                v[3] = v[2];
                if x < v[0] {
                    v[2] = v[1];
                    v[1] = v[0];
                    v[0] = x;
                } else if x < v[1] {
                    v[2] = v[1];
                    v[1] = x;
                } else {
                    v[2] = x;
                }
            } else {
                if x < v[3] {
                    v[4] = v[3];
                    v[3] = x;
                } else {
                    v[4] = x;
                }
                self.high = false;
            }
        } else if v[2] < x {
            v[0] = v[1];
            v[1] = v[2];
            if v[4] < x {
                v[2] = v[3];
                v[3] = v[4];
                v[4] = x;
            } else if v[3] < x {
                v[2] = v[3];
                v[3] = x;
            } else {
                v[2] = x;
            }
        } else {
            if v[1] < x {
                v[0] = v[1];
                v[1] = x;
            } else {
                v[0] = x;
            }
            self.high = true;
        }
    }
}

const MAP8: [[u8; 8]; 8] = [
    [15, 14, 13, 12, 11, 10, 9, 8],
    [14, 0, 1, 3, 6, 10, 10, 9],
    [13, 1, 2, 4, 7, 11, 11, 10],
    [12, 3, 4, 5, 8, 12, 12, 11],
    [11, 6, 7, 8, 9, 13, 13, 12],
    [10, 10, 11, 12, 13, 14, 14, 13],
    [9, 10, 11, 12, 13, 14, 15, 14],
    [8, 9, 10, 11, 12, 13, 14, 15],
];

/// `number_return_map_6ctx` of LASzip, one string per number of returns
const MAP6: [&[u8; 16]; 16] = [
    b"0123453445555555",
    b"1013333333333333",
    b"2124444444433333",
    b"3345444444444444",
    b"4344544444444444",
    b"5344454444444444",
    b"3344445444444444",
    b"4344444544444444",
    b"4344444454444444",
    b"5344444445444444",
    b"5344444444544444",
    b"5334444444455444",
    b"5334444444455544",
    b"5334444444445554",
    b"5334444444444555",
    b"5334444444444455",
];

fn map6(n: usize, r: usize) -> usize {
    (MAP6[n][r] - b'0') as usize
}

fn syms(n: usize, k: usize) -> Vec<Sym> {
    (0..n).map(|_| Sym::new(k)).collect()
}

/// Models created at first use (a new model does not depend on when).
struct Many {
    k: usize,
    v: Vec<Option<Sym>>,
}
impl Many {
    fn new(n: usize, k: usize) -> Many {
        Many {
            k,
            v: (0..n).map(|_| None).collect(),
        }
    }
    fn at(&mut self, i: usize) -> &mut Sym {
        let k = self.k;
        self.v[i].get_or_insert_with(|| Sym::new(k))
    }
}

/// Source of non canonical but conforming encodings.
pub struct Over(pub Option<(Rng, u64)>);
impl Over {
    fn yes(&mut self) -> bool {
        match &mut self.0 {
            None => false,
            Some((r, p)) => r.next() % 100 < *p,
        }
    }
}

// ---------------------------------------------------------------- gps time

struct Gps {
    /// 1, 2: Gpstime11 items; 3: the gps time of Point14
    v: u8,
    zero: Sym,
    multi: Sym,
    ic: Ic,
    last: usize,
    next: usize,
    t: [u64; 4],
    d: [i32; 4],
    ext: [i32; 4],
}
impl Gps {
    fn new(v: u8, first: u64) -> Gps {
        let (z, m, c) = match v {
            1 => (3, 512, 6),
            2 => (6, 516, 9),
            _ => (5, 515, 9),
        };
        Gps {
            v,
            zero: Sym::new(z),
            multi: Sym::new(m),
            ic: Ic::new(32, c),
            last: 0,
            next: 0,
            t: [first, 0, 0, 0],
            d: [0; 4],
            ext: [0; 4],
        }
    }
    fn put1(&mut self, e: &mut Enc, t: u64) {
        let d64 = t.wrapping_sub(self.t[0]) as i64;
        let fits = d64 == d64 as i32 as i64;
        let d = d64 as i32;
        let ld = self.d[0];
        if ld == 0 {
            if d64 == 0 {
                e.sym(&mut self.zero, 0);
            } else if fits {
                e.sym(&mut self.zero, 1);
                self.ic.put(e, 0, d, 0);
                self.d[0] = d;
            } else {
                e.sym(&mut self.zero, 2);
                e.int64(t);
            }
        } else if d64 == 0 {
            e.sym(&mut self.multi, 511);
        } else if fits {
            let m = quantize(d as f32 / ld as f32).clamp(0, 509);
            e.sym(&mut self.multi, m as u32);
            if m == 1 {
                self.ic.put(e, ld, d, 1);
                self.d[0] = d;
                self.ext[0] = 0;
            } else if m == 0 {
                self.ic.put(e, ld / 4, d, 2);
                self.extreme(0, d);
            } else {
                let c = if m < 10 {
                    3
                } else if m < 50 {
                    4
                } else {
                    5
                };
                self.ic.put(e, ld.wrapping_mul(m), d, c);
                if m == 509 {
                    self.extreme(0, d);
                }
            }
        } else {
            e.sym(&mut self.multi, 510);
            e.int64(t);
        }
        self.t[0] = t;
    }
    fn extreme(&mut self, l: usize, d: i32) {
        self.ext[l] += 1;
        if self.ext[l] > 3 {
            self.d[l] = d;
            self.ext[l] = 0;
        }
    }
    fn put(&mut self, e: &mut Enc, t: u64, over: &mut Over) {
        if self.v == 1 {
            return self.put1(e, t);
        }
        let v3 = self.v == 3;
        // symbols: (difference fits, full, other sequence i) after a zero
        // difference, and (unchanged, full) otherwise
        let (zfit, zfull, zseq) = if v3 { (0, 1, 1) } else { (1, 2, 2) };
        let (same, full) = if v3 { (u32::MAX, 511) } else { (511, 512) };
        loop {
            let l = self.last;
            let d64 = t.wrapping_sub(self.t[l]) as i64;
            let d = d64 as i32;
            let fits = d64 == d as i64 && !(d64 != 0 && over.yes());
            let ld = self.d[l];
            if ld == 0 {
                if !v3 && d64 == 0 {
                    e.sym(&mut self.zero, 0);
                    return;
                }
                if fits {
                    e.sym(&mut self.zero, zfit);
                    self.ic.put(e, 0, d, 0);
                    self.d[l] = d;
                    self.ext[l] = 0;
                    self.t[l] = t;
                    return;
                }
                if let Some(i) = self.other(t) {
                    e.sym(&mut self.zero, zseq + i as u32);
                    self.last = (l + i) & 3;
                    continue;
                }
                e.sym(&mut self.zero, zfull);
                self.put_full(e, t);
                return;
            }
            if !v3 && d64 == 0 {
                e.sym(&mut self.multi, same);
                return;
            }
            if fits {
                let m = quantize(d as f32 / ld as f32);
                if m == 1 {
                    e.sym(&mut self.multi, 1);
                    self.ic.put(e, ld, d, 1);
                    self.ext[l] = 0;
                } else if m > 0 {
                    if m < 500 {
                        e.sym(&mut self.multi, m as u32);
                        self.ic
                            .put(e, ld.wrapping_mul(m), d, if m < 10 { 2 } else { 3 });
                    } else {
                        e.sym(&mut self.multi, 500);
                        self.ic.put(e, ld.wrapping_mul(500), d, 4);
                        self.extreme(l, d);
                    }
                } else if m < 0 {
                    if m > -10 {
                        e.sym(&mut self.multi, (500 - m) as u32);
                        self.ic.put(e, ld.wrapping_mul(m), d, 5);
                    } else {
                        e.sym(&mut self.multi, 510);
                        self.ic.put(e, ld.wrapping_mul(-10), d, 6);
                        self.extreme(l, d);
                    }
                } else {
                    e.sym(&mut self.multi, 0);
                    self.ic.put(e, 0, d, 7);
                    self.extreme(l, d);
                }
                self.t[l] = t;
                return;
            }
            if let Some(i) = self.other(t) {
                e.sym(&mut self.multi, full + i as u32);
                self.last = (l + i) & 3;
                continue;
            }
            e.sym(&mut self.multi, full);
            self.put_full(e, t);
            return;
        }
    }
    fn other(&self, t: u64) -> Option<usize> {
        (1..4).find(|i| {
            let o = t.wrapping_sub(self.t[(self.last + i) & 3]) as i64;
            o == o as i32 as i64
        })
    }
    fn put_full(&mut self, e: &mut Enc, t: u64) {
        self.ic
            .put(e, (self.t[self.last] >> 32) as i32, (t >> 32) as i32, 8);
        e.int(t as u32);
        self.next = (self.next + 1) & 3;
        self.last = self.next;
        self.d[self.last] = 0;
        self.ext[self.last] = 0;
        self.t[self.last] = t;
    }
}

// ---------------------------------------------------------------- sequential

trait SeqItem {
    fn put(&mut self, e: &mut Enc, p: &[u8], over: &mut Over);
}

struct Point10v1 {
    last: Vec<u8>,
    dx: Ic,
    dy: Ic,
    z: Ic,
    intensity: Ic,
    angle: Ic,
    psid: Ic,
    changed: Sym,
    m14: Many,
    m15: Many,
    m17: Many,
    xd: [i32; 3],
    yd: [i32; 3],
    incr: usize,
}
impl Point10v1 {
    fn new(p: &[u8]) -> Self {
        Point10v1 {
            last: p.to_vec(),
            dx: Ic::new(32, 1),
            dy: Ic::new(32, 20),
            z: Ic::new(32, 20),
            intensity: Ic::new(16, 1),
            angle: Ic::new(8, 2),
            psid: Ic::new(16, 1),
            changed: Sym::new(64),
            m14: Many::new(256, 256),
            m15: Many::new(256, 256),
            m17: Many::new(256, 256),
            xd: [0; 3],
            yd: [0; 3],
            incr: 0,
        }
    }
}
fn median3(a: [i32; 3]) -> i32 {
    let mut b = a;
    b.sort();
    b[1]
}
impl SeqItem for Point10v1 {
    fn put(&mut self, e: &mut Enc, p: &[u8], over: &mut Over) {
        let l = self.last.clone();
        let mx = median3(self.xd);
        let my = median3(self.yd);
        let xd = i32a(p, 0).wrapping_sub(i32a(&l, 0));
        let yd = i32a(p, 4).wrapping_sub(i32a(&l, 4));
        self.dx.put(e, mx, xd, 0);
        self.dy.put(e, my, yd, self.dx.k().min(19) as usize);
        let k = (self.dx.k() + self.dy.k()) / 2;
        self.z.put(e, i32a(&l, 8), i32a(p, 8), k.min(19) as usize);
        let c = [
            u16a(p, 12) != u16a(&l, 12) || over.yes(),
            p[14] != l[14] || over.yes(),
            p[15] != l[15] || over.yes(),
            p[16] != l[16] || over.yes(),
            p[17] != l[17] || over.yes(),
            u16a(p, 18) != u16a(&l, 18) || over.yes(),
        ];
        let sym = c.iter().fold(0, |a, b| a << 1 | *b as u32);
        e.sym(&mut self.changed, sym);
        if c[0] {
            self.intensity
                .put(e, u16a(&l, 12) as i32, u16a(p, 12) as i32, 0);
        }
        if c[1] {
            e.sym(self.m14.at(l[14] as usize), p[14] as u32);
        }
        if c[2] {
            e.sym(self.m15.at(l[15] as usize), p[15] as u32);
        }
        if c[3] {
            self.angle.put(e, l[16] as i32, p[16] as i32, (k < 3) as usize);
        }
        if c[4] {
            e.sym(self.m17.at(l[17] as usize), p[17] as u32);
        }
        if c[5] {
            self.psid
                .put(e, u16a(&l, 18) as i32, u16a(p, 18) as i32, 0);
        }
        self.xd[self.incr] = xd;
        self.yd[self.incr] = yd;
        self.incr = (self.incr + 1) % 3;
        self.last.copy_from_slice(p);
    }
}

struct Point10v2 {
    last: Vec<u8>,
    dx: Ic,
    dy: Ic,
    z: Ic,
    intensity: Ic,
    psid: Ic,
    changed: Sym,
    angle: Vec<Sym>,
    m14: Many,
    m15: Many,
    m17: Many,
    xm: [Median5; 16],
    ym: [Median5; 16],
    li: [u16; 16],
    lz: [i32; 8],
}
impl Point10v2 {
    fn new(p: &[u8]) -> Self {
        Point10v2 {
            last: p.to_vec(),
            dx: Ic::new(32, 2),
            dy: Ic::new(32, 22),
            z: Ic::new(32, 20),
            intensity: Ic::new(16, 4),
            psid: Ic::new(16, 1),
            changed: Sym::new(64),
            angle: syms(2, 256),
            m14: Many::new(256, 256),
            m15: Many::new(256, 256),
            m17: Many::new(256, 256),
            xm: [Median5::new(); 16],
            ym: [Median5::new(); 16],
            li: [0; 16],
            lz: [0; 8],
        }
    }
}
fn even_up_to(k: u32, m: u32) -> usize {
    (if k < m { k & !1 } else { m }) as usize
}
impl SeqItem for Point10v2 {
    fn put(&mut self, e: &mut Enc, p: &[u8], over: &mut Over) {
        let l = self.last.clone();
        let r = (p[14] & 7) as usize;
        let n = ((p[14] >> 3) & 7) as usize;
        let m = MAP8[n][r] as usize;
        let lev = n.abs_diff(r);
        let c = [
            p[14] != l[14] || over.yes(),
            u16a(p, 12) != self.li[m] || over.yes(),
            p[15] != l[15] || over.yes(),
            p[16] != l[16] || over.yes(),
            p[17] != l[17] || over.yes(),
            u16a(p, 18) != u16a(&l, 18) || over.yes(),
        ];
        let sym = c.iter().fold(0, |a, b| a << 1 | *b as u32);
        e.sym(&mut self.changed, sym);
        if c[0] {
            e.sym(self.m14.at(l[14] as usize), p[14] as u32);
        }
        if c[1] {
            self.intensity
                .put(e, self.li[m] as i32, u16a(p, 12) as i32, m.min(3));
            self.li[m] = u16a(p, 12);
        }
        if c[2] {
            e.sym(self.m15.at(l[15] as usize), p[15] as u32);
        }
        if c[3] {
            let dir = (p[14] >> 6) & 1;
            e.sym(
                &mut self.angle[dir as usize],
                fold(p[16] as i32 - l[16] as i32),
            );
        }
        if c[4] {
            e.sym(self.m17.at(l[17] as usize), p[17] as u32);
        }
        if c[5] {
            self.psid
                .put(e, u16a(&l, 18) as i32, u16a(p, 18) as i32, 0);
        }
        let single = (n == 1) as usize;
        let xd = i32a(p, 0).wrapping_sub(i32a(&l, 0));
        self.dx.put(e, self.xm[m].get(), xd, single);
        self.xm[m].add(xd);
        let yd = i32a(p, 4).wrapping_sub(i32a(&l, 4));
        self.dy.put(
            e,
            self.ym[m].get(),
            yd,
            single + even_up_to(self.dx.k(), 20),
        );
        self.ym[m].add(yd);
        let k = (self.dx.k() + self.dy.k()) / 2;
        self.z
            .put(e, self.lz[lev], i32a(p, 8), single + even_up_to(k, 18));
        self.lz[lev] = i32a(p, 8);
        self.last.copy_from_slice(p);
    }
}

struct GpsItem(Gps);
impl SeqItem for GpsItem {
    fn put(&mut self, e: &mut Enc, p: &[u8], over: &mut Over) {
        self.0.put(e, u64a(p, 0), over);
    }
}

struct Rgb1 {
    last: Vec<u8>,
    used: Sym,
    ic: Ic,
}
impl SeqItem for Rgb1 {
    fn put(&mut self, e: &mut Enc, p: &[u8], over: &mut Over) {
        // the bytes of the record are, in order, low and high byte of red,
        // green and blue
        let ch: Vec<bool> = (0..6).map(|i| p[i] != self.last[i] || over.yes()).collect();
        let sym = (0..6).fold(0u32, |a, i| a | (ch[i] as u32) << i);
        e.sym(&mut self.used, sym);
        for i in 0..6 {
            if ch[i] {
                self.ic.put(e, self.last[i] as i32, p[i] as i32, i);
            }
        }
        self.last.copy_from_slice(p);
    }
}

struct RgbModels {
    used: Sym,
    diff: Vec<Sym>,
}
impl RgbModels {
    fn new() -> Self {
        RgbModels {
            used: Sym::new(128),
            diff: syms(6, 256),
        }
    }
    fn put(&mut self, e: &mut Enc, l: &[u8], p: &[u8], over: &mut Over) {
        let gray = p[0] == p[2] && p[0] == p[4] && p[1] == p[3] && p[1] == p[5];
        let mut ch: Vec<bool> = (0..6).map(|i| p[i] != l[i]).collect();
        let color = !gray || over.yes();
        for (i, c) in ch.iter_mut().enumerate() {
            // bytes 2.. are only looked at in the colour case
            if i < 2 || color {
                *c |= over.yes();
            }
        }
        let sym = (0..6).fold(0u32, |a, i| a | (ch[i] as u32) << i) | (color as u32) << 6;
        e.sym(&mut self.used, sym);
        let d = |i: usize| p[i] as i32 - l[i] as i32;
        let mut first = [0i32; 2];
        for h in 0..2 {
            if ch[h] {
                first[h] = d(h);
                e.sym(&mut self.diff[h], fold(d(h)));
            }
        }
        if color {
            for h in 0..2 {
                if ch[2 + h] {
                    let c = p[2 + h] as i32 - clamp8(first[h] + l[2 + h] as i32);
                    e.sym(&mut self.diff[2 + h], fold(c));
                }
                if ch[4 + h] {
                    let mean = (first[h] + d(2 + h)) / 2;
                    let c = p[4 + h] as i32 - clamp8(mean + l[4 + h] as i32);
                    e.sym(&mut self.diff[4 + h], fold(c));
                }
            }
        }
    }
}
struct Rgb2 {
    last: Vec<u8>,
    m: RgbModels,
}
impl SeqItem for Rgb2 {
    fn put(&mut self, e: &mut Enc, p: &[u8], over: &mut Over) {
        self.m.put(e, &self.last, p, over);
        self.last.copy_from_slice(p);
    }
}

struct Byte1 {
    last: Vec<u8>,
    ic: Ic,
}
impl SeqItem for Byte1 {
    fn put(&mut self, e: &mut Enc, p: &[u8], _: &mut Over) {
        for i in 0..p.len() {
            self.ic.put(e, self.last[i] as i32, p[i] as i32, i);
        }
        self.last.copy_from_slice(p);
    }
}
struct Byte2 {
    last: Vec<u8>,
    m: Vec<Sym>,
}
impl SeqItem for Byte2 {
    fn put(&mut self, e: &mut Enc, p: &[u8], _: &mut Over) {
        for i in 0..p.len() {
            e.sym(&mut self.m[i], fold(p[i] as i32 - self.last[i] as i32));
        }
        self.last.copy_from_slice(p);
    }
}

struct WaveModels {
    index: Sym,
    off: Vec<Sym>,
    ic_off: Ic,
    ic_size: Ic,
    ic_ret: Ic,
    ic_xyz: Ic,
    last_diff: i32,
    last_sym: usize,
}
impl WaveModels {
    fn new() -> Self {
        WaveModels {
            index: Sym::new(256),
            off: syms(4, 4),
            ic_off: Ic::new(32, 1),
            ic_size: Ic::new(32, 1),
            ic_ret: Ic::new(32, 1),
            ic_xyz: Ic::new(32, 3),
            last_diff: 0,
            last_sym: 0,
        }
    }
    fn put(&mut self, e: &mut Enc, l: &[u8], p: &[u8], over: &mut Over) {
        e.sym(&mut self.index, p[0] as u32);
        let d64 = u64a(p, 1).wrapping_sub(u64a(l, 1)) as i64;
        let d = d64 as i32;
        let size = i32a(l, 9) as u32;
        let s;
        if d64 == d as i64 && !over.yes() {
            if d == 0 && !over.yes() {
                s = 0;
                e.sym(&mut self.off[self.last_sym], 0);
            } else if d64 == size as i64 && !over.yes() {
                s = 1;
                e.sym(&mut self.off[self.last_sym], 1);
            } else {
                s = 2;
                e.sym(&mut self.off[self.last_sym], 2);
                self.ic_off.put(e, self.last_diff, d, 0);
                self.last_diff = d;
            }
        } else {
            s = 3;
            e.sym(&mut self.off[self.last_sym], 3);
            e.int64(u64a(p, 1));
        }
        self.last_sym = s;
        self.ic_size.put(e, i32a(l, 9), i32a(p, 9), 0);
        self.ic_ret.put(e, i32a(l, 13), i32a(p, 13), 0);
        for i in 0..3 {
            self.ic_xyz.put(e, i32a(l, 17 + 4 * i), i32a(p, 17 + 4 * i), i);
        }
    }
}
struct Wave1 {
    last: Vec<u8>,
    m: WaveModels,
}
impl SeqItem for Wave1 {
    fn put(&mut self, e: &mut Enc, p: &[u8], over: &mut Over) {
        self.m.put(e, &self.last, p, over);
        self.last.copy_from_slice(p);
    }
}

fn seq_item(it: &Item, p: &[u8]) -> Box<dyn SeqItem> {
    let last = p.to_vec();
    match (it.kind, it.version) {
        (Kind::Point10, 1) => Box::new(Point10v1::new(p)),
        (Kind::Point10, _) => Box::new(Point10v2::new(p)),
        (Kind::Gps, v) => Box::new(GpsItem(Gps::new(v as u8, u64a(p, 0)))),
        (Kind::Rgb12, 1) => Box::new(Rgb1 {
            last,
            used: Sym::new(64),
            ic: Ic::new(8, 6),
        }),
        (Kind::Rgb12, _) => Box::new(Rgb2 {
            last,
            m: RgbModels::new(),
        }),
        (Kind::Byte(n), 1) => Box::new(Byte1 {
            last,
            ic: Ic::new(8, n as usize),
        }),
        (Kind::Byte(n), _) => Box::new(Byte2 {
            last,
            m: syms(n as usize, 256),
        }),
        (Kind::Wave13, _) => Box::new(Wave1 {
            last,
            m: WaveModels::new(),
        }),
        (k, v) => panic!("reference: {k:?} v{v} is not a sequential item"),
    }
}

// ---------------------------------------------------------------- layered

/// One layer: its coder, and whether it has to be written.
struct Layer {
    e: Enc,
    on: bool,
}
impl Layer {
    fn new(on: bool) -> Layer {
        Layer { e: Enc::new(), on }
    }
    fn done(self) -> Vec<u8> {
        if self.on {
            self.e.done()
        } else {
            vec![]
        }
    }
}

trait LayItem {
    /// `ctx` is the scanner channel context handed from item to item
    fn put(&mut self, p: &[u8], ctx: &mut usize, over: &mut Over);
    fn layers(self: Box<Self>) -> Vec<Vec<u8>>;
}

struct P14Ctx {
    last: Vec<u8>,
    gps_changed: bool,
    li: [u16; 8],
    lz: [i32; 8],
    xm: Vec<Median5>,
    ym: Vec<Median5>,
    changed: Vec<Sym>,
    channel: Sym,
    nret: Vec<Sym>,
    ret: Vec<Sym>,
    ret_same: Sym,
    dx: Ic,
    dy: Ic,
    z: Ic,
    class: Many,
    flags: Many,
    user: Many,
    intensity: Ic,
    angle: Ic,
    psid: Ic,
    gps: Gps,
}
impl P14Ctx {
    fn new(p: &[u8]) -> P14Ctx {
        P14Ctx {
            last: p.to_vec(),
            gps_changed: false,
            li: [u16a(p, 12); 8],
            lz: [i32a(p, 8); 8],
            xm: vec![Median5::new(); 12],
            ym: vec![Median5::new(); 12],
            changed: syms(8, 128),
            channel: Sym::new(3),
            nret: syms(16, 16),
            ret: syms(16, 16),
            ret_same: Sym::new(13),
            dx: Ic::new(32, 2),
            dy: Ic::new(32, 22),
            z: Ic::new(32, 20),
            class: Many::new(64, 256),
            flags: Many::new(64, 64),
            user: Many::new(64, 256),
            intensity: Ic::new(16, 4),
            angle: Ic::new(16, 2),
            psid: Ic::new(16, 1),
            gps: Gps::new(3, u64a(p, 22)),
        }
    }
}

fn flags6(p: &[u8]) -> usize {
    let f = p[15];
    (((f >> 7) as usize) << 5) | ((((f >> 6) & 1) as usize) << 4) | (f & 15) as usize
}

struct Point14 {
    v: u16,
    cur: usize,
    ctx: Vec<Option<P14Ctx>>,
    xy: Layer,
    z: Layer,
    class: Layer,
    flags: Layer,
    intensity: Layer,
    angle: Layer,
    user: Layer,
    psid: Layer,
    gps: Layer,
}
impl Point14 {
    fn new(v: u16, p: &[u8], ctx: &mut usize, over: &mut Over) -> Self {
        let ch = ((p[15] >> 4) & 3) as usize;
        *ctx = ch;
        let mut c: Vec<Option<P14Ctx>> = (0..4).map(|_| None).collect();
        c[ch] = Some(P14Ctx::new(p));
        Point14 {
            v,
            cur: ch,
            ctx: c,
            xy: Layer::new(true),
            z: Layer::new(true),
            class: Layer::new(over.yes()),
            flags: Layer::new(over.yes()),
            intensity: Layer::new(over.yes()),
            angle: Layer::new(over.yes()),
            user: Layer::new(over.yes()),
            psid: Layer::new(over.yes()),
            gps: Layer::new(over.yes()),
        }
    }
}
impl LayItem for Point14 {
    fn put(&mut self, p: &[u8], ctx: &mut usize, over: &mut Over) {
        let old = self.cur;
        let ch = ((p[15] >> 4) & 3) as usize;
        let lpr = {
            let c = self.ctx[old].as_ref().unwrap();
            let (r, n) = (c.last[14] & 15, c.last[14] >> 4);
            (r == 1) as usize + 2 * (r >= n) as usize + 4 * c.gps_changed as usize
        };
        // the point of comparison: last of the new channel when it has one
        let l = match &self.ctx[ch] {
            Some(c) => c.last.clone(),
            None => self.ctx[old].as_ref().unwrap().last.clone(),
        };
        let (r, n) = ((p[14] & 15) as i32, (p[14] >> 4) as i32);
        let (lr, ln) = ((l[14] & 15) as i32, (l[14] >> 4) as i32);
        let psid_c = u16a(p, 20) != u16a(&l, 20) || over.yes();
        let gps_c = u64a(p, 22) != u64a(&l, 22) || over.yes();
        let ang_c = u16a(p, 18) != u16a(&l, 18) || over.yes();
        let n_c = n != ln || over.yes();
        let step = (r - lr).rem_euclid(16);
        let mut rc = match step {
            0 => 0u32,
            1 => 1,
            15 => 2,
            _ => 3,
        };
        if gps_c && rc != 3 && over.yes() {
            rc = 3;
        }
        let sym = ((ch != old) as u32) << 6
            | (psid_c as u32) << 5
            | (gps_c as u32) << 4
            | (ang_c as u32) << 3
            | (n_c as u32) << 2
            | rc;
        {
            let c = self.ctx[old].as_mut().unwrap();
            self.xy.e.sym(&mut c.changed[lpr], sym);
            if ch != old {
                let d = (ch as i32 - old as i32).rem_euclid(4) - 1;
                self.xy.e.sym(&mut c.channel, d as u32);
            }
        }
        if ch != old {
            if self.ctx[ch].is_none() {
                self.ctx[ch] = Some(P14Ctx::new(&l));
            }
            self.cur = ch;
        }
        if self.v >= 4 || ch != old {
            *ctx = ch;
        }
        let c = self.ctx[ch].as_mut().unwrap();
        if n_c {
            self.xy.e.sym(&mut c.nret[ln as usize], n as u32);
        }
        if rc == 3 {
            if gps_c {
                self.xy.e.sym(&mut c.ret[lr as usize], r as u32);
            } else {
                // differences 2..14 modulo 16
                self.xy.e.sym(&mut c.ret_same, step as u32 - 2);
            }
        }
        let m = map6(n as usize, r as usize);
        let lev = n.abs_diff(r).min(7) as usize;
        let cpr = 2 * (r == 1) as usize + (r >= n) as usize;
        let g = gps_c as usize;
        let single = (n == 1) as usize;

        let xd = i32a(p, 0).wrapping_sub(i32a(&l, 0));
        c.dx.put(&mut self.xy.e, c.xm[2 * m + g].get(), xd, single);
        c.xm[2 * m + g].add(xd);
        let yd = i32a(p, 4).wrapping_sub(i32a(&l, 4));
        let k = c.dx.k();
        c.dy.put(
            &mut self.xy.e,
            c.ym[2 * m + g].get(),
            yd,
            single + even_up_to(k, 20),
        );
        c.ym[2 * m + g].add(yd);
        let k = (c.dx.k() + c.dy.k()) / 2;
        c.z.put(
            &mut self.z.e,
            c.lz[lev],
            i32a(p, 8),
            single + even_up_to(k, 18),
        );
        c.lz[lev] = i32a(p, 8);

        self.class.on |= p[16] != l[16];
        let cc = ((l[16] & 0x1F) as usize) * 2 + (cpr == 3) as usize;
        self.class.e.sym(c.class.at(cc), p[16] as u32);

        self.flags.on |= flags6(p) != flags6(&l);
        self.flags
            .e
            .sym(c.flags.at(flags6(&l)), flags6(p) as u32);

        self.intensity.on |= u16a(p, 12) != u16a(&l, 12);
        c.intensity.put(
            &mut self.intensity.e,
            c.li[2 * cpr + g] as i32,
            u16a(p, 12) as i32,
            cpr,
        );
        c.li[2 * cpr + g] = u16a(p, 12);

        if ang_c {
            self.angle.on = true;
            c.angle.put(
                &mut self.angle.e,
                u16a(&l, 18) as i16 as i32,
                u16a(p, 18) as i16 as i32,
                g,
            );
        }
        self.user.on |= p[17] != l[17];
        self.user
            .e
            .sym(c.user.at((l[17] / 4) as usize), p[17] as u32);
        if psid_c {
            self.psid.on = true;
            c.psid.put(
                &mut self.psid.e,
                u16a(&l, 20) as i32,
                u16a(p, 20) as i32,
                0,
            );
        }
        if gps_c {
            self.gps.on = true;
            c.gps.put(&mut self.gps.e, u64a(p, 22), over);
        }
        c.last.copy_from_slice(p);
        c.gps_changed = gps_c;
    }
    fn layers(self: Box<Self>) -> Vec<Vec<u8>> {
        let s = *self;
        [
            s.xy,
            s.z,
            s.class,
            s.flags,
            s.intensity,
            s.angle,
            s.user,
            s.psid,
            s.gps,
        ]
        .into_iter()
        .map(Layer::done)
        .collect()
    }
}

/// The items that follow Point14: per channel context a last record and models.
trait CtxModels {
    fn new(size: usize) -> Self;
    fn put(&mut self, layers: &mut [Layer], l: &[u8], p: &[u8], over: &mut Over);
    fn n_layers(size: usize) -> usize;
}
struct Contexted<M: CtxModels> {
    v: u16,
    cur: usize,
    last: Vec<Option<Vec<u8>>>,
    m: Vec<M>,
    layers: Vec<Layer>,
}
impl<M: CtxModels> Contexted<M> {
    fn new(v: u16, p: &[u8], ctx: usize, over: &mut Over) -> Self {
        let mut last: Vec<Option<Vec<u8>>> = vec![None; 4];
        last[ctx] = Some(p.to_vec());
        Contexted {
            v,
            cur: ctx,
            last,
            m: (0..4).map(|_| M::new(p.len())).collect(),
            layers: (0..M::n_layers(p.len()))
                .map(|_| Layer::new(over.yes()))
                .collect(),
        }
    }
}
impl<M: CtxModels> LayItem for Contexted<M> {
    fn put(&mut self, p: &[u8], ctx: &mut usize, over: &mut Over) {
        // index of the context whose last record is used and updated
        let mut idx = self.cur;
        if *ctx != self.cur {
            let fresh = self.last[*ctx].is_none();
            if fresh {
                self.last[*ctx] = self.last[self.cur].clone();
            }
            self.cur = *ctx;
            if fresh || self.v >= 4 {
                idx = *ctx;
            }
        }
        let l = self.last[idx].clone().unwrap();
        self.m[self.cur].put(&mut self.layers, &l, p, over);
        self.last[idx] = Some(p.to_vec());
    }
    fn layers(self: Box<Self>) -> Vec<Vec<u8>> {
        let s = *self;
        s.layers.into_iter().map(Layer::done).collect()
    }
}

impl CtxModels for RgbModels {
    fn new(_: usize) -> Self {
        RgbModels::new()
    }
    fn n_layers(_: usize) -> usize {
        1
    }
    fn put(&mut self, ly: &mut [Layer], l: &[u8], p: &[u8], over: &mut Over) {
        ly[0].on |= l != p;
        RgbModels::put(self, &mut ly[0].e, l, p, over);
    }
}
struct RgbNir {
    rgb: RgbModels,
    used: Sym,
    diff: Vec<Sym>,
}
impl CtxModels for RgbNir {
    fn new(_: usize) -> Self {
        RgbNir {
            rgb: RgbModels::new(),
            used: Sym::new(4),
            diff: syms(2, 256),
        }
    }
    fn n_layers(_: usize) -> usize {
        2
    }
    fn put(&mut self, ly: &mut [Layer], l: &[u8], p: &[u8], over: &mut Over) {
        ly[0].on |= l[..6] != p[..6];
        self.rgb.put(&mut ly[0].e, &l[..6], &p[..6], over);
        ly[1].on |= l[6..] != p[6..];
        let ch = [l[6] != p[6] || over.yes(), l[7] != p[7] || over.yes()];
        let e = &mut ly[1].e;
        e.sym(&mut self.used, ch[0] as u32 | (ch[1] as u32) << 1);
        for h in 0..2 {
            if ch[h] {
                e.sym(&mut self.diff[h], fold(p[6 + h] as i32 - l[6 + h] as i32));
            }
        }
    }
}
struct Bytes14(Vec<Sym>);
impl CtxModels for Bytes14 {
    fn new(n: usize) -> Self {
        Bytes14(syms(n, 256))
    }
    fn n_layers(n: usize) -> usize {
        n
    }
    fn put(&mut self, ly: &mut [Layer], l: &[u8], p: &[u8], _: &mut Over) {
        for i in 0..p.len() {
            ly[i].on |= l[i] != p[i];
            ly[i].e.sym(&mut self.0[i], fold(p[i] as i32 - l[i] as i32));
        }
    }
}
impl CtxModels for WaveModels {
    fn new(_: usize) -> Self {
        WaveModels::new()
    }
    fn n_layers(_: usize) -> usize {
        1
    }
    fn put(&mut self, ly: &mut [Layer], l: &[u8], p: &[u8], over: &mut Over) {
        ly[0].on |= l != p;
        WaveModels::put(self, &mut ly[0].e, l, p, over);
    }
}

fn lay_item(it: &Item, p: &[u8], ctx: &mut usize, over: &mut Over) -> Box<dyn LayItem> {
    let v = it.version;
    match it.kind {
        Kind::Point14 => Box::new(Point14::new(v, p, ctx, over)),
        Kind::Rgb14 => Box::new(Contexted::<RgbModels>::new(v, p, *ctx, over)),
        Kind::RgbNir14 => Box::new(Contexted::<RgbNir>::new(v, p, *ctx, over)),
        Kind::Wave14 => Box::new(Contexted::<WaveModels>::new(v, p, *ctx, over)),
        Kind::Byte14(_) => Box::new(Contexted::<Bytes14>::new(v, p, *ctx, over)),
        k => panic!("reference: {k:?} is not a layered item"),
    }
}

// ---------------------------------------------------------------- chunks

fn split<'a>(spec: &Spec, p: &'a [u8]) -> Vec<&'a [u8]> {
    let mut o = 0;
    spec.items
        .iter()
        .map(|i| {
            let s = i.kind.size() as usize;
            let r = &p[o..o + s];
            o += s;
            r
        })
        .collect()
}

/// The bytes of one chunk holding `points` (at least one point).
pub fn chunk(spec: &Spec, points: &[u8], over: &mut Over) -> Vec<u8> {
    let rs = spec.record_size();
    let mut it = points.chunks_exact(rs);
    let first = it.next().expect("a chunk holds at least one point");
    let mut out = first.to_vec();
    if spec.layered() {
        let mut ctx = 0usize;
        let mut items: Vec<Box<dyn LayItem>> = vec![];
        for (i, part) in spec.items.iter().zip(split(spec, first)) {
            items.push(lay_item(i, part, &mut ctx, over));
        }
        for p in it {
            let mut ctx = 0usize;
            for (c, part) in items.iter_mut().zip(split(spec, p)) {
                c.put(part, &mut ctx, over);
            }
        }
        out.extend(((points.len() / rs) as u32).to_le_bytes());
        let layers: Vec<Vec<u8>> = items.into_iter().flat_map(|i| i.layers()).collect();
        for l in &layers {
            out.extend((l.len() as u32).to_le_bytes());
        }
        for l in &layers {
            out.extend(l);
        }
    } else {
        let mut items: Vec<Box<dyn SeqItem>> = spec
            .items
            .iter()
            .zip(split(spec, first))
            .map(|(i, p)| seq_item(i, p))
            .collect();
        let mut e = Enc::new();
        for p in it {
            for (c, part) in items.iter_mut().zip(split(spec, p)) {
                c.put(&mut e, part, over);
            }
        }
        out.extend(e.done());
    }
    out
}

/// The bytes of a chunk table with the given (point count, byte count) entries.
pub fn table(variable: bool, entries: &[(u32, u32)]) -> Vec<u8> {
    let mut out = vec![];
    out.extend(0u32.to_le_bytes());
    out.extend((entries.len() as u32).to_le_bytes());
    if !entries.is_empty() {
        let mut e = Enc::new();
        let mut ic = Ic::new(32, 2);
        let mut last = (0u32, 0u32);
        for en in entries {
            if variable {
                ic.put(&mut e, last.0 as i32, en.0 as i32, 0);
            }
            ic.put(&mut e, last.1 as i32, en.1 as i32, 1);
            last = *en;
        }
        out.extend(e.done());
    }
    out
}

/// Reads a chunk table; also returns the number of bytes it takes.
pub fn read_table(variable: bool, fixed: u32, b: &[u8]) -> Option<(Vec<(u32, u32)>, usize)> {
    if b.len() < 8 || b[..4] != [0; 4] {
        return None;
    }
    let n = u32::from_le_bytes(b[4..8].try_into().unwrap()) as usize;
    if n == 0 {
        return Some((vec![], 8));
    }
    if n > b.len() * 64 + 10_000_000 {
        return None;
    }
    let mut d = Dec::new(&b[8..]);
    let mut ic = Ic::new(32, 2);
    let mut last = (0u32, 0u32);
    let mut v = vec![];
    for _ in 0..n {
        let p = if variable {
            ic.get(&mut d, last.0 as i32, 0) as u32
        } else {
            fixed
        };
        let y = ic.get(&mut d, last.1 as i32, 1) as u32;
        last = (p, y);
        v.push(last);
    }
    let used = 8 + d.consumed();
    Some((v, used))
}

/// A complete stream (offset field, chunks, table) placed at `start`, or the
/// single unframed chunk of the point wise compressor.
pub fn stream(spec: &Spec, chunks: &[&[u8]], start: u64, over: &mut Over) -> Vec<u8> {
    if spec.compressor == 1 {
        let pts: Vec<u8> = chunks.concat();
        return if pts.is_empty() {
            vec![]
        } else {
            chunk(spec, &pts, over)
        };
    }
    let rs = spec.record_size();
    let mut body = vec![];
    let mut entries = vec![];
    for c in chunks {
        let b = chunk(spec, c, over);
        let n = if spec.variable() {
            (c.len() / rs) as u32
        } else {
            spec.chunk_size
        };
        entries.push((n, b.len() as u32));
        body.extend(b);
    }
    let mut out = (start as i64 + 8 + body.len() as i64).to_le_bytes().to_vec();
    out.extend(body);
    out.extend(table(spec.variable(), &entries));
    out
}
