use crate::engine::*;
use crate::gen::*;
use crate::refc;
use crate::spec::*;
use std::io::Cursor;

/// A generated data set: layout, points, and (variable mode) chunk sizes.
pub struct Data {
    pub spec: Spec,
    pub points: Vec<u8>,
    pub n: usize,
    /// chunk sizes, in points, in order (also filled in fixed mode)
    pub chunks: Vec<usize>,
}

pub struct DataOpts {
    pub spec: SpecOpts,
    pub small: usize,
    pub medium: usize,
    pub large: usize,
    pub min_points: usize,
    /// one stream in `giant` is very long (0: none): models reach their
    /// maximal counts, buffers of several megabytes
    pub giant: u64,
    /// of those, half have more than 65 535 chunks
    pub chunky: bool,
}

impl Default for DataOpts {
    fn default() -> Self {
        DataOpts {
            spec: SpecOpts::default(),
            small: 120,
            medium: 500,
            large: 2500,
            min_points: 0,
            giant: 0,
            chunky: false,
        }
    }
}

pub fn fixed_chunks(n: usize, c: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = n;
    while left > 0 {
        let k = left.min(c);
        v.push(k);
        left -= k;
    }
    v
}

/// A very long stream: 33 000 to 70 000 points, in one or several chunks;
/// some of them with more than 65 535 points.
fn gen_giant(s: &mut Src, o: &DataOpts) -> Data {
    let mut so = o.spec;
    so.max_extra = if s.chance(1, 6) { 90 } else { 3 };
    so.wide = 0;
    let mut spec = gen_spec(s, so);
    // some have a chunk with more points than 16 bits can count
    let long = s.chance(1, 4);
    let n = if long { s.usize(65_530, 67_000) } else { s.usize(33_000, 70_000) };
    if o.chunky && spec.compressor != 1 && s.chance(1, 2) {
        return gen_chunky(s, spec);
    }
    if spec.compressor != 1 && !spec.variable() {
        spec.chunk_size = match if long { 0 } else { s.draw(4) } {
            0 if s.chance(1, 3) => s.range(65_535, 65_540) as u32,
            0 => 80_000,
            1 => 50_000,
            2 => s.range(33_000, 60_000) as u32,
            _ => s.range(1500, 20_000) as u32,
        };
    }
    let chunks = if spec.compressor == 1 {
        vec![n]
    } else if spec.variable() {
        match if long { 0 } else { s.draw(3) } {
            0 => vec![n],
            1 => {
                let k = s.usize(1, 32_000);
                vec![k, n - k]
            }
            _ => fixed_chunks(n, s.usize(5000, 40_000)),
        }
    } else {
        fixed_chunks(n, spec.chunk_size as usize)
    };
    let points = Gen::new(&spec).points(s, n);
    Data {
        spec,
        points,
        n,
        chunks,
    }
}

/// More chunks than 16 bits can count.
fn gen_chunky(s: &mut Src, mut spec: Spec) -> Data {
    // setting up the models of the other items takes too long
    spec.compressor = 2;
    spec.items = vec![Item {
        kind: Kind::Byte(s.range(1, 2) as u16),
        version: s.range(1, 2) as u16,
    }];
    let n = *s.pick(&[65_536usize, 65_535, 65_537]) + s.usize(0, 3);
    let k = if spec.variable() {
        1
    } else {
        spec.chunk_size = s.range(1, 2) as u32;
        spec.chunk_size as usize
    };
    let n = n * k - s.usize(0, k - 1);
    let points = Gen::new(&spec).points(s, n);
    Data {
        spec,
        points,
        n,
        chunks: fixed_chunks(n, k),
    }
}

pub fn gen_data(s: &mut Src, o: &DataOpts) -> Data {
    if o.giant > 0 && s.chance(1, o.giant) {
        return gen_giant(s, o);
    }
    let mut spec = gen_spec(s, o.spec);
    let mut n = gen_count(s, o.small, o.medium, o.large).max(o.min_points);
    let rs = spec.record_size();
    if rs > 90 {
        // wide records
        n = n.min(if rs > 30_000 { 3 } else { 20_000 / rs + 8 });
    }
    let many = rs <= 90 && spec.compressor != 1 && s.chance(1, 120);
    if many {
        // often around a power of two
        n = match s.draw(4) {
            0 => s.usize(250, 700),
            1 => (16 << s.draw(3)) + s.usize(0, 2),
            2 => *s.pick(&[128usize, 256]) + s.usize(0, 2),
            _ => 64 * s.usize(1, 5) + s.usize(0, 2),
        };
    }
    if spec.compressor != 1 && !spec.variable() {
        // a chunk costs the set up of all its models: bound their number
        if many {
            spec.chunk_size = s.range(1, 3) as u32;
            n = (n * spec.chunk_size as usize).saturating_sub(s.usize(0, 2));
        }
        let c = spec.chunk_size as usize;
        let cap = if many {
            700
        } else if rs > 1000 {
            4
        } else if s.chance(1, 12) {
            40
        } else {
            12
        };
        if n > cap * c {
            n = (cap - 1) * c + n % c + 1;
        }
        if s.chance(1, 30) {
            // one chunk that is far from full: its declared size in bytes may
            // not fit any 32 bit number
            let k = s.draw(40) as u32;
            spec.chunk_size = match s.draw(4) {
                0 => u32::MAX - 1 - k,
                1 => (1 << s.range(20, 31)) + k,
                _ => ((1u64 << 32) * s.range(1, rs.max(2) as u64 - 1) / rs.max(2) as u64) as u32 + k,
            };
        }
    }
    let chunks = if spec.compressor == 1 {
        vec![n]
    } else if spec.variable() && many {
        let mut v = vec![];
        let mut left = n;
        while left > 0 {
            let k = s.usize(1, 2).min(left);
            v.push(k);
            left -= k;
        }
        v
    } else if spec.variable() {
        gen_chunk_sizes(s, n)
    } else {
        fixed_chunks(n, spec.chunk_size as usize)
    };
    let points = Gen::new(&spec).points(s, n);
    Data {
        spec,
        points,
        n,
        chunks,
    }
}

impl Data {
    pub fn rs(&self) -> usize {
        self.spec.record_size()
    }
    pub fn chunk_slices(&self) -> Vec<&[u8]> {
        let rs = self.rs();
        let mut v = vec![];
        let mut o = 0;
        for c in &self.chunks {
            v.push(&self.points[o * rs..(o + c) * rs]);
            o += c;
        }
        v
    }
    pub fn desc(&self) -> String {
        format!(
            "{} {} points, chunks {:?}{}",
            self.spec.desc(),
            self.n,
            &self.chunks[..self.chunks.len().min(6)],
            if self.chunks.len() > 6 { ".." } else { "" }
        )
    }
    pub fn label(&self, info: &mut Info) {
        if self.spec.compressor != 1 && !self.spec.variable() && self.spec.chunk_size >= 1 << 20 {
            info.label("huge chunk size");
        }
        if self.n >= 33_000 {
            info.label("very long stream");
        }
        for it in &self.spec.items {
            info.label(format!(
                "item {}v{}",
                match it.kind {
                    Kind::Byte(_) => "Byte".to_string(),
                    Kind::Byte14(_) => "Byte14".to_string(),
                    k => format!("{k:?}"),
                },
                it.version
            ));
        }
        info.label(if self.spec.compressor == 1 {
            "pointwise"
        } else if self.spec.variable() {
            "variable chunks"
        } else {
            "fixed chunks"
        });
        info.label(match self.chunks.len() {
            0 => "no chunk",
            1 => "one chunk",
            2..=5 => "2-5 chunks",
            6..=255 => "6+ chunks",
            256..=65_535 => "256+ chunks",
            _ => "65536+ chunks",
        });
        if self.rs() > 32_000 {
            info.label("records of 32 kB and more");
        } else if self.rs() > 90 {
            info.label("wide records");
        }
        info.label(match self.n {
            0 => "0 points",
            1 => "1 point",
            2..=49 => "2-49 points",
            50..=499 => "50-499 points",
            _ => "500+ points",
        });
    }
    pub fn digest(&self) -> u64 {
        hash64(&[hash_bytes(&self.points), hash_bytes(&self.spec.vlr_bytes())])
    }
    /// distinct records in the stream
    pub fn changes(&self) -> usize {
        let rs = self.rs();
        self.points
            .chunks_exact(rs)
            .zip(self.points.chunks_exact(rs).skip(1))
            .filter(|(a, b)| a != b)
            .count()
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// First difference between expected and actual records.
pub fn diff_points(spec: &Spec, exp: &[u8], got: &[u8]) -> Option<(String, String)> {
    if exp == got {
        return None;
    }
    let rs = spec.record_size();
    if exp.len() != got.len() {
        return Some((
            "length".into(),
            format!("expected {} bytes, got {}", exp.len(), got.len()),
        ));
    }
    for (i, (a, b)) in exp.chunks(rs).zip(got.chunks(rs)).enumerate() {
        if a != b {
            let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(0);
            let mut o = 0;
            let mut item = "?".to_string();
            for it in &spec.items {
                let sz = it.kind.size() as usize;
                if k < o + sz {
                    let name = match it.kind {
                        Kind::Byte(_) => "Byte".to_string(),
                        Kind::Byte14(_) => "Byte14".to_string(),
                        k => format!("{k:?}"),
                    };
                    item = format!("{}v{}", name, it.version);
                    break;
                }
                o += sz;
            }
            return Some((
                item,
                format!(
                    "point {i} differs at byte {k} of the record: expected {} got {}",
                    hex(a),
                    hex(b)
                ),
            ));
        }
    }
    None
}

pub fn expect_points(what: &str, spec: &Spec, exp: &[u8], got: &[u8]) -> CaseResult {
    if let Some((item, d)) = diff_points(spec, exp, got) {
        return Err(Fail::new(
            format!("{what}|{item}"),
            format!("{what}: {d} ({})", spec.desc()),
        ));
    }
    Ok(())
}

pub fn e2f<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Result<T, Fail> {
    crate::io::after_call(what, r.is_ok());
    r.map_err(|e| {
        Fail::new(
            format!("{what}|unexpected error|{}", normalise(&e.to_string())),
            format!("{what}: unexpected error {e}"),
        )
    })
}

/// Compresses `d` with the sequential compressor, the way its chunking asks.
pub fn compress_seq(d: &Data) -> Result<Vec<u8>, Fail> {
    let mut out = Cursor::new(Vec::new());
    {
        let mut c = e2f(
            "LasZipCompressor::new",
            laz::LasZipCompressor::new(&mut out, d.spec.vlr()),
        )?;
        if d.spec.variable() {
            for (i, ch) in d.chunk_slices().iter().enumerate() {
                e2f("compress_many", c.compress_many(ch))?;
                if i + 1 < d.chunks.len() {
                    e2f("finish_current_chunk", c.finish_current_chunk())?;
                }
            }
        } else {
            e2f("compress_many", c.compress_many(&d.points))?;
        }
        e2f("done", c.done())?;
    }
    Ok(out.into_inner())
}

/// Rayon pools of a given number of threads, made once per process.
pub fn pool(threads: usize) -> &'static rayon::ThreadPool {
    use std::collections::HashMap;
    use std::sync::{Mutex, OnceLock};
    static POOLS: OnceLock<Mutex<HashMap<usize, &'static rayon::ThreadPool>>> = OnceLock::new();
    let mut m = POOLS.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner());
    *m.entry(threads).or_insert_with(|| {
        Box::leak(Box::new(
            rayon::ThreadPoolBuilder::new()
                .num_threads(threads)
                .build()
                .expect("thread pool"),
        ))
    })
}

pub fn gen_threads(s: &mut Src) -> usize {
    *s.pick(&[1usize, 2, 3, 4, 7])
}

/// Cuts `n` points in groups (some of them empty when `zero`).
pub fn gen_groups(s: &mut Src, n: usize, zero: bool) -> Vec<usize> {
    let mut v = vec![];
    let mut left = n;
    let style = s.draw(4);
    while left > 0 {
        let k = match style {
            0 => left,
            1 => 1,
            2 => 1 + s.draw(6) as usize,
            _ => 1 + s.draw(1 + left as u64) as usize,
        }
        .min(left);
        if zero && s.chance(1, 10) {
            v.push(0);
        }
        v.push(k);
        left -= k;
    }
    if zero && s.chance(1, 10) {
        v.push(0);
    }
    v
}

/// Expects an error.
pub fn expect_err<T, E: std::fmt::Debug>(sig: &str, what: &str, r: Result<T, E>) -> CaseResult {
    match r {
        Ok(_) => Err(Fail::new(sig, format!("{what}: succeeded, an error was expected"))),
        Err(_) => Ok(()),
    }
}

/// Number of points a stream accounts for: layered chunks and the tables of
/// variable chunks tell it, otherwise the last fixed chunk may be full.
pub fn capacity(d: &Data) -> u64 {
    if d.spec.variable() || d.spec.layered() {
        d.n as u64
    } else {
        d.chunks.len() as u64 * d.spec.chunk_size as u64
    }
}

/// Puts chunks without points (but maybe with bytes) in a stream of chunks of variable sizes,
/// as a writer that ends chunks which are already ended leaves them.
pub fn add_empty_chunks(s: &mut Src, spec: &Spec, stream: &mut Vec<u8>, start: u64, info: &mut Info) {
    if !spec.variable() || spec.compressor == 1 {
        return;
    }
    let off = (i64::from_le_bytes(stream[..8].try_into().unwrap()) as u64 - start) as usize;
    let (mut entries, used) = refc::read_table(true, spec.chunk_size, &stream[off..]).unwrap();
    let after = stream.split_off(off + used);
    stream.truncate(off);
    let mut f = s.fork();
    for _ in 0..s.usize(1, 3) {
        let at = s.usize(0, entries.len());
        let k = if s.chance(1, 2) { 0 } else { s.usize(1, 30) };
        let pos = 8 + entries[..at].iter().map(|e| e.1 as usize).sum::<usize>();
        stream.splice(pos..pos, f.bytes(k));
        entries.insert(at, (0, k as u32));
    }
    let off = start + stream.len() as u64;
    stream[..8].copy_from_slice(&off.to_le_bytes());
    stream.extend(refc::table(true, &entries));
    stream.extend(after);
    info.label("chunks without points");
}
