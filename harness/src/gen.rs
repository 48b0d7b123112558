//! Point stream generator: realistic and adversarial point records.
//!
//! A record is described by its elementary fields.  A stream is cut in
//! segments; in a segment every field follows one behaviour (kept, small or
//! constant differences, powers of two, extremes, history, random bits...).

use crate::engine::Src;
use crate::spec::{Kind, Spec};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum F {
    /// plain little endian integer of n bytes
    Int(u8),
    /// GPS time (i64 bit pattern of a f64)
    Gps,
    /// x / y / z
    Coord,
    /// u16 colour component, `true` for the first of a RGB triple
    Color(bool),
    /// Point10 bit fields byte
    Bits10,
    /// Point14 return byte
    Returns14,
    /// Point14 flags byte (with scanner channel)
    Flags14,
    /// wave packet offset (u64)
    WaveOffset,
    /// wave packet size (u32)
    WaveSize,
    /// f32 bit patterns
    Float,
}

#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub off: usize,
    pub f: F,
}

impl Field {
    pub fn width(&self) -> usize {
        match self.f {
            F::Int(n) => n as usize,
            F::Gps | F::WaveOffset => 8,
            F::Coord | F::WaveSize | F::Float => 4,
            F::Color(_) => 2,
            F::Bits10 | F::Returns14 | F::Flags14 => 1,
        }
    }
}

pub fn fields_of(spec: &Spec) -> Vec<Field> {
    let mut v = vec![];
    let mut o = 0usize;
    for it in &spec.items {
        let mut put = |off: usize, f: F| v.push(Field { off: o + off, f });
        match it.kind {
            Kind::Byte(n) | Kind::Byte14(n) => {
                for i in 0..n as usize {
                    put(i, F::Int(1));
                }
            }
            Kind::Point10 => {
                put(0, F::Coord);
                put(4, F::Coord);
                put(8, F::Coord);
                put(12, F::Int(2));
                put(14, F::Bits10);
                put(15, F::Int(1));
                put(16, F::Int(1));
                put(17, F::Int(1));
                put(18, F::Int(2));
            }
            Kind::Gps => put(0, F::Gps),
            Kind::Rgb12 | Kind::Rgb14 => {
                put(0, F::Color(true));
                put(2, F::Color(false));
                put(4, F::Color(false));
            }
            Kind::RgbNir14 => {
                put(0, F::Color(true));
                put(2, F::Color(false));
                put(4, F::Color(false));
                put(6, F::Int(2));
            }
            Kind::Wave13 | Kind::Wave14 => {
                put(0, F::Int(1));
                put(1, F::WaveOffset);
                put(9, F::WaveSize);
                put(13, F::Float);
                put(17, F::Float);
                put(21, F::Float);
                put(25, F::Float);
            }
            Kind::Point14 => {
                put(0, F::Coord);
                put(4, F::Coord);
                put(8, F::Coord);
                put(12, F::Int(2));
                put(14, F::Returns14);
                put(15, F::Flags14);
                put(16, F::Int(1));
                put(17, F::Int(1));
                put(18, F::Int(2));
                put(20, F::Int(2));
                put(22, F::Gps);
            }
        }
        o += it.kind.size() as usize;
    }
    v
}

fn get(p: &[u8], off: usize, w: usize) -> u64 {
    let mut b = [0u8; 8];
    b[..w].copy_from_slice(&p[off..off + w]);
    u64::from_le_bytes(b)
}
fn put(p: &mut [u8], off: usize, w: usize, v: u64) {
    p[off..off + w].copy_from_slice(&v.to_le_bytes()[..w]);
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Keep,
    Small(u64),
    ConstDelta(u64),
    Pow2,
    Random,
    Extreme,
    Toggle(u64, u64),
    History,
    Special(u64),
}

fn ops_for(s: &mut Src, f: &Field, keep_weight: u32) -> Op {
    let w = f.width() as u32;
    let mask = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
    match s.weighted(&[keep_weight, 6, 4, 2, 2, 2, 2, 2, 6]) {
        0 => Op::Keep,
        1 => {
            let bits = s.range(1, 10);
            Op::Small(1 << bits)
        }
        2 => {
            let bits = s.range(0, (8 * w) as u64 - 1);
            let d = s.draw(1u64 << bits).wrapping_add(1);
            let d = if s.chance(1, 3) { d.wrapping_neg() } else { d };
            Op::ConstDelta(d & mask)
        }
        3 => Op::Pow2,
        4 => Op::Random,
        5 => Op::Extreme,
        6 => {
            let a = s.u64() & mask;
            let b = s.u64() & mask;
            Op::Toggle(a, b)
        }
        7 => Op::History,
        _ => Op::Special(s.draw(12)),
    }
}

fn gauss(s: &mut Src, amp: u64) -> i64 {
    s.draw(2 * amp + 1) as i64 - amp as i64
}

const EXTREME_GPS: [u64; 10] = [
    0,
    0x8000_0000_0000_0000, // -0.0
    0x7FF8_0000_0000_0000, // NaN
    0x7FF0_0000_0000_0001, // signalling NaN
    0xFFF8_0000_0000_0001,
    0x7FF0_0000_0000_0000, // inf
    u64::MAX,
    0x7FFF_FFFF_FFFF_FFFF,
    0x8000_0000_0000_0001,
    1,
];

/// Behaviour of the whole stream.
#[derive(Clone, Copy)]
pub struct Profile {
    /// weight of "field keeps its value" (relative to 26)
    pub keep: u32,
    /// mean segment length
    pub seg: u64,
}

pub struct Gen {
    fields: Vec<Field>,
    size: usize,
}

impl Gen {
    pub fn new(spec: &Spec) -> Self {
        Gen {
            fields: fields_of(spec),
            size: spec.record_size(),
        }
    }

    fn apply(&self, s: &mut Src, f: &Field, op: Op, cur: &mut [u8], hist: &[Vec<u8>], i: usize, wavesize: u64, diffs: &mut [i64; 4]) {
        let w = f.width();
        let bits = 8 * w as u32;
        let mask = if w == 8 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = get(cur, f.off, w);
        let nv = match op {
            Op::Keep => v,
            Op::Small(a) => v.wrapping_add(gauss(s, a) as u64) & mask,
            Op::ConstDelta(d) => v.wrapping_add(d) & mask,
            Op::Pow2 => {
                let k = s.draw(bits as u64);
                let j = gauss(s, 1) as u64;
                let d = (1u64 << k).wrapping_add(j);
                if s.chance(1, 2) {
                    v.wrapping_add(d) & mask
                } else {
                    v.wrapping_sub(d) & mask
                }
            }
            Op::Random => s.u64() & mask,
            Op::Extreme => match f.f {
                F::Gps => *s.pick(&EXTREME_GPS),
                F::Float => *s.pick(&[0u64, 0x8000_0000, 0x7FC0_0000, 0x7F80_0001, 0xFFFF_FFFF, 0x3F80_0000]),
                _ => *s.pick(&[0, mask, mask >> 1, (mask >> 1) + 1, 1, mask - 1]),
            },
            Op::Toggle(a, b) => {
                if s.chance(1, 2) {
                    a
                } else {
                    b
                }
            }
            Op::History => {
                if hist.is_empty() {
                    v
                } else {
                    let k = s.draw(hist.len() as u64) as usize;
                    get(&hist[k], f.off, w)
                }
            }
            Op::Special(k) => match f.f {
                F::Gps => match k {
                    0 => (1.0e5 + i as f64 * 0.001 + s.draw(4) as f64 * 1e-6).to_bits(),
                    // multiples of one difference (both signs)
                    1..=4 => {
                        let m = *s.pick(&[1i64, 1, 1, 2, 3, 9, 10, 11, 100, 499, 500, 501, 511, 600, -1, -2, -9, -10, -11, -12, 0]);
                        if diffs[0] == 0 {
                            diffs[0] = gauss(s, 1 << 20) | 1;
                        }
                        let jitter = if k >= 3 { gauss(s, 3) } else { 0 };
                        v.wrapping_add(diffs[0].wrapping_mul(m) as u64).wrapping_add(jitter as u64)
                    }
                    // several interleaved sequences
                    5..=8 => {
                        let nseq = (k - 3).min(6);
                        let q = s.draw(nseq);
                        let base = (0x4100_0000_0000_0000u64).wrapping_add(q * 0x0012_3456_0000_0000);
                        base.wrapping_add(i as u64 * 1000 * (q + 1)).wrapping_add(s.draw(3))
                    }
                    9 => v.wrapping_add((gauss(s, 2) as u64) << 31),
                    10 => v.wrapping_add((gauss(s, 2) as u64) << 32),
                    _ => f64::from_bits(v).mul_add(1.0, 1.0).to_bits(),
                },
                F::Coord => match k {
                    0..=2 => 0x8000_0000u64.wrapping_add(gauss(s, 2) as u64) & mask,
                    3..=5 => ((1_000_000i64 + gauss(s, 5000)) as u64) & mask,
                    6 => (v as i64).wrapping_neg() as u64 & mask,
                    _ => v.wrapping_add(gauss(s, 1 << 16) as u64) & mask,
                },
                F::Color(first) => match k {
                    0..=2 => (s.draw(256) * 257) & mask,
                    3..=4 => s.draw(256),
                    5 => s.draw(256) << 8,
                    6..=8 if !first => get(cur, f.off - 2, 2),
                    _ => {
                        let d = gauss(s, 300) as u64;
                        v.wrapping_add(d) & mask
                    }
                },
                F::Bits10 => {
                    let n = 1 + s.draw(5);
                    let r = 1 + s.draw(n);
                    if k < 8 {
                        r | (n << 3) | (v & 0xC0)
                    } else {
                        r | (n << 3) | (s.draw(4) << 6)
                    }
                }
                F::Returns14 => {
                    let n = 1 + s.draw(if k < 8 { 5 } else { 15 });
                    let r = if k % 2 == 0 {
                        1 + s.draw(n)
                    } else {
                        (get(cur, f.off, 1) & 15).wrapping_add(1) & 15
                    };
                    (r & 15) | ((n & 15) << 4)
                }
                F::Flags14 => match k {
                    // scanner channel switches only
                    0..=5 => {
                        let nch = 2 + k % 3;
                        (v & 0xCF) | (s.draw(nch) << 4)
                    }
                    6 | 7 => (v & 0xF0) | s.draw(16),
                    8 | 9 => (v & 0x3F) | (s.draw(4) << 6),
                    _ => (v & 0xCF) | (((v >> 4).wrapping_add(1) & 3) << 4),
                },
                F::WaveOffset => match k {
                    0..=5 => v.wrapping_add(wavesize),
                    6 => v,
                    7 => v.wrapping_sub(wavesize),
                    8 => v.wrapping_add((gauss(s, 2) as u64) << 31),
                    9 => v.wrapping_add((gauss(s, 2) as u64) << 32),
                    _ => v.wrapping_add(gauss(s, 1 << 31) as u64),
                },
                F::WaveSize => match k {
                    0..=4 => *s.pick(&[256u64, 512, 1024]),
                    5 => 0x8000_0000 + s.draw(3),
                    6 => 0xFFFF_FFFF - s.draw(3),
                    7 => 0,
                    _ => v.wrapping_add(gauss(s, 100) as u64) & mask,
                },
                F::Float => match k {
                    0..=5 => (s.draw(1000) as f32 * 0.125).to_bits() as u64,
                    6 => 0,
                    7 => 0x8000_0000,
                    8 => 0x7FC0_0000,
                    _ => v.wrapping_add(gauss(s, 1000) as u64) & mask,
                },
                F::Int(1) => match k {
                    0..=3 => v ^ (1 << s.draw(8)),
                    4..=6 => s.draw(4),
                    _ => v.wrapping_add(gauss(s, 2) as u64) & mask,
                },
                F::Int(_) => match k {
                    0..=5 => s.draw(20),
                    6 => v ^ (1 << s.draw(bits as u64)),
                    _ => v.wrapping_add(gauss(s, 1 << (bits / 2)) as u64) & mask,
                },
            },
        };
        put(cur, f.off, w, nv);
    }

    /// `n` points; choices come from `s`.
    pub fn points(&self, s: &mut Src, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n * self.size);
        if n == 0 {
            return out;
        }
        let profile = match s.weighted(&[4, 3, 2, 2, 1]) {
            0 => Profile { keep: 26, seg: 8 },
            1 => Profile { keep: 80, seg: 6 },
            2 => Profile { keep: 8, seg: 12 },
            3 => Profile { keep: 26, seg: 40 },
            _ => Profile { keep: 600, seg: 10 },
        };
        // past this many points the values are not individually recorded
        let mut fork;
        let s: &mut Src = if n > 40 {
            fork = s.fork();
            &mut fork
        } else {
            s
        };
        let mut cur = vec![0u8; self.size];
        // initial point
        match s.weighted(&[3, 3, 1]) {
            0 => {}
            1 => {
                for f in &self.fields {
                    let op = ops_for(s, f, 4);
                    let mut d = [0i64; 4];
                    self.apply(s, f, op, &mut cur, &[], 0, 256, &mut d);
                }
            }
            _ => {
                for b in cur.iter_mut() {
                    *b = s.draw(256) as u8;
                }
            }
        }
        out.extend_from_slice(&cur);
        let mut hist: Vec<Vec<u8>> = vec![cur.clone()];
        let mut i = 1;
        let mut diffs = [0i64; 4];
        while i < n {
            let len = s.range(1, 2 * profile.seg) as usize;
            let ops: Vec<Op> = self
                .fields
                .iter()
                .map(|f| ops_for(s, f, profile.keep))
                .collect();
            diffs[0] = 0;
            for _ in 0..len {
                if i >= n {
                    break;
                }
                let wavesize = self
                    .fields
                    .iter()
                    .find(|f| f.f == F::WaveSize)
                    .map(|f| get(&cur, f.off, 4))
                    .unwrap_or(0);
                for (f, op) in self.fields.iter().zip(&ops) {
                    self.apply(s, f, *op, &mut cur, &hist, i, wavesize, &mut diffs);
                }
                out.extend_from_slice(&cur);
                if hist.len() < 12 {
                    hist.push(cur.clone());
                } else {
                    let k = i % 12;
                    hist[k].copy_from_slice(&cur);
                }
                i += 1;
            }
        }
        out
    }
}

/// Number of points of a stream: mostly small, sometimes medium, rarely large.
pub fn gen_count(s: &mut Src, max_small: usize, medium: usize, large: usize) -> usize {
    match s.weighted(&[10, 70, 16, 1]) {
        0 => s.usize(0, 2),
        1 => s.usize(0, max_small),
        2 => s.usize(0, medium),
        _ => s.usize(medium, large),
    }
}

/// Splits `total` points in chunks sizes >= 1 (variable size chunks).
pub fn gen_chunk_sizes(s: &mut Src, total: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = total;
    let style = s.draw(3);
    let cap = if s.chance(1, 12) { 40 } else { 10 };
    while left > 0 {
        let m = match style {
            0 => 8,
            1 => 40,
            _ => 1 + left as u64 / 2,
        };
        let k = (1 + s.draw(m.max(1)) as usize).min(left);
        v.push(k);
        left -= k;
        if v.len() >= cap && left > 0 {
            v.push(left);
            break;
        }
    }
    v
}
