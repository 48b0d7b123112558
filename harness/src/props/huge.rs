//! Streams of more than 2^32 bytes and points: a file with holes whose table
//! lists chunks that are not there, next to real ones. Only the real ones are
//! reached, by seeking.
use super::util::*;
use crate::engine::*;
use crate::io::Sparse;
use crate::refc::{self, Over};

pub struct Huge {
    pub d: Data,
    pub file: Sparse,
    pub start: u64,
    pub entries: Vec<(u32, u32)>,
    pub real: Vec<Real>,
    /// points the table accounts for
    pub total: u64,
}

/// a chunk that is there
pub struct Real {
    /// its place in the table
    pub chunk: usize,
    /// index of its first point in the stream
    pub first: u64,
    /// its points in `d`
    pub at: usize,
    pub n: usize,
}

fn big(s: &mut Src) -> u32 {
    match s.draw(4) {
        0 => *s.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 3_000_000_000]),
        1 => s.range(1, 5000) as u32,
        _ => s.range(1 << 28, u32::MAX as u64) as u32,
    }
}

pub fn gen_huge(s: &mut Src, tier: Tier) -> Huge {
    let mut o = DataOpts {
        small: 50,
        medium: 100,
        large: if tier == Tier::Quick { 200 } else { 1000 },
        min_points: 1,
        ..Default::default()
    };
    o.spec.allow_fixed = false;
    let mut d = gen_data(s, &o);
    d.chunks.retain(|c| *c > 0);
    let fixed = s.chance(1, 3);
    if fixed {
        // (all but the last are claimed to be full)
        d.spec.chunk_size = *s.pick(&[u32::MAX - 1, 1 << 31, (1 << 31) + 1, 4_000_000_000, 1 << 30]);
    }
    let start = match s.draw(3) {
        0 => 0,
        1 => s.range(1, 5000),
        _ => s.range(1, 1 << 40),
    };
    let mut file = Sparse::default();
    let mut at = start + 8;
    let mut entries = vec![];
    let mut real = vec![];
    let mut first = 0u64;
    let mut k = 0;
    let rs = d.rs();
    for (i, c) in d.chunks.clone().into_iter().enumerate() {
        let holes = if i == 0 { s.usize(0, 3) } else { s.weighted(&[4, 1, 1]) };
        for _ in 0..holes {
            let n = if fixed { d.spec.chunk_size } else { big(s) };
            let b = big(s);
            entries.push((n, b));
            at += b as u64;
            first += n as u64;
        }
        let b = refc::chunk(&d.spec, &d.points[k * rs..(k + c) * rs], &mut Over(None));
        file.put(at, &b);
        real.push(Real {
            chunk: entries.len(),
            first,
            at: k,
            n: c,
        });
        let n = if fixed { d.spec.chunk_size } else { c as u32 };
        entries.push((n, b.len() as u32));
        at += b.len() as u64;
        first += n as u64;
        k += c;
    }
    file.put(start, &(at as i64).to_le_bytes());
    file.put(at, &refc::table(d.spec.variable(), &entries));
    file.pos = start;
    Huge {
        d,
        file,
        start,
        entries,
        real,
        total: first,
    }
}
