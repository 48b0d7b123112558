//! C14 Chunks are independent.
use super::util::*;
use super::writers::*;
use super::Prop;
use crate::engine::*;
use crate::gen::Gen;
use crate::mutate::mutate;
use crate::refc;
use crate::spec::*;
use laz::laszip::parallel::par_decompress_selective;
use laz::laszip::{ChunkTable, ChunkTableEntry};
use laz::record::{
    LayeredPointRecordCompressor, LayeredPointRecordDecompressor, RecordCompressor, RecordDecompressor,
    SequentialPointRecordCompressor, SequentialPointRecordDecompressor,
};
use laz::{DecompressionSelection, LasZipDecompressor, ParLasZipDecompressor};
use std::io::Cursor;

pub static PROP: Prop = Prop {
    id: "C14",
    name: "chunks are independent",
    f: case,
    quick: 7_200,
    thorough: 500_000,
    rule: "at least 2 chunks of different content, the whole with at least 4 points",
    assumptions: &["a sequential reader that reads through a damaged chunk may lose its place; it is expected back on track after a seek"],
};

fn case(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let threads = gen_threads(s);
    let mut r = Ok(());
    pool(threads).install(|| r = inner(s, info, tier));
    r
}

type Sink = Cursor<Vec<u8>>;
fn comp<'a>(spec: &Spec) -> Box<dyn RecordCompressor<Sink> + 'a> {
    if spec.layered() {
        Box::new(LayeredPointRecordCompressor::new(Sink::default()))
    } else {
        Box::new(SequentialPointRecordCompressor::new(Sink::default()))
    }
}
fn decomp<'a>(spec: &Spec, src: &'a [u8]) -> Box<dyn RecordDecompressor<Cursor<&'a [u8]>> + 'a> {
    let c = Cursor::new(src);
    if spec.layered() {
        Box::new(LayeredPointRecordDecompressor::new(c))
    } else {
        Box::new(SequentialPointRecordDecompressor::new(c))
    }
}

/// Bytes of a chunk made by a compressor that makes nothing else.
fn alone(spec: &Spec, pts: &[u8]) -> Result<Vec<u8>, Fail> {
    let mut c = comp(spec);
    e2f("set_fields_from", c.set_fields_from(spec.vlr().items()))?;
    e2f("compress_many", c.compress_many(pts))?;
    e2f("record done", c.done())?;
    Ok(c.box_into_inner().into_inner())
}

fn same_bytes(what: &str, spec: &Spec, want: &[u8], got: &[u8], desc: &str) -> CaseResult {
    if want == got {
        return Ok(());
    }
    let k = want.iter().zip(got).position(|(a, b)| a != b);
    let at = match k {
        None => "length".to_string(),
        Some(k) => format!("byte {k}"),
    };
    fail!(
        format!("chunk bytes|{what}|{}", if spec.layered() { "layered" } else { "sequential" }),
        "{what}: the bytes of the chunk depend on the other chunks: {} bytes alone, {} here, first difference: {at} ({desc})",
        want.len(),
        got.len()
    )
}

/// Points of the chunks kept right whatever happens to one of them.
struct View<'a> {
    spec: &'a Spec,
    stream: &'a [u8],
    /// points per chunk
    counts: &'a [usize],
    want: &'a [u8],
    /// the chunk that is not what it was
    bad: Option<usize>,
    sel: DecompressionSelection,
    /// bytes per chunk
    sizes: &'a [usize],
}

impl View<'_> {
    fn first(&self, c: usize) -> usize {
        self.counts[..c].iter().sum()
    }
    fn chunk_of(&self, p: usize) -> usize {
        let mut e = 0;
        for (i, c) in self.counts.iter().enumerate() {
            e += c;
            if p < e {
                return i;
            }
        }
        self.counts.len()
    }
    fn same(&self, what: &str, from: usize, got: &[u8], log: &[String]) -> CaseResult {
        let rs = self.spec.record_size();
        if let Some((item, m)) = diff_points(self.spec, &self.want[from * rs..from * rs + got.len()], got) {
            fail!(
                format!("{what}|{item}"),
                "{what}: points from {from}: {m} ({} chunks of {:?} points{}, {}; {})",
                self.counts.len(),
                self.counts,
                match self.bad {
                    Some(k) => format!(", chunk {k} damaged"),
                    None => String::new(),
                },
                self.spec.desc(),
                log.join(", ")
            );
        }
        Ok(())
    }

    /// Seeks and reads on one reader; whatever happens in the damaged chunk is
    /// ignored, everything else has to be right.
    fn history(&self, s: &mut Src, par: bool, info: &mut Info) -> CaseResult {
        let rs = self.spec.record_size();
        let n: usize = self.counts.iter().sum();
        let src = Cursor::new(self.stream);
        let vlr = self.spec.vlr();
        let mut seq = None;
        let mut prl = None;
        if par {
            prl = Some(e2f("ParLasZipDecompressor::selective", ParLasZipDecompressor::selective(src, vlr, self.sel))?);
        } else {
            seq = Some(e2f("LasZipDecompressor::selective", LasZipDecompressor::selective(src, vlr, self.sel))?);
        }
        let what = if par { "parallel reader" } else { "sequential reader" };
        // None: lost in the damaged chunk
        let mut pos = Some(0usize);
        let mut log = vec![];
        let steps = s.usize(2, 6);
        for _ in 0..steps {
            if pos.is_none() || pos == Some(n) || s.chance(2, 3) {
                let into_bad = self.bad.is_some() && s.chance(1, 3);
                let c = if into_bad { self.bad.unwrap() } else { s.usize(0, self.counts.len() - 1) };
                let p = self.first(c) + s.usize(0, self.counts[c] - 1);
                log.push(format!("seek {p}"));
                let r = match (&mut seq, &mut prl) {
                    (Some(x), _) => x.seek(p as u64),
                    (_, Some(x)) => x.seek(p as u64),
                    _ => Ok(()),
                };
                if Some(c) == self.bad {
                    pos = match r {
                        Ok(()) => Some(p),
                        Err(_) => {
                            info.label("error in the damaged chunk");
                            None
                        }
                    };
                } else {
                    e2f(&format!("{what}: seek to an intact chunk"), r)?;
                    info.checks += 1;
                    pos = Some(p);
                }
            }
            let Some(p) = pos else { continue };
            let k = if s.chance(1, 4) { n - p } else { s.usize(1, 1 + (n - p) / 2).min(n - p) };
            let touches = self.bad.map_or(false, |b| {
                let (f, l) = (self.first(b), self.first(b) + self.counts[b]);
                p < l && p + k > f
            });
            let one_by_one = s.chance(1, 3);
            log.push(format!("read {k}{}", if one_by_one { " one by one" } else { "" }));
            let mut b = vec![0x77u8; k * rs];
            if one_by_one && !par {
                let x = seq.as_mut().unwrap();
                for (i, o) in b.chunks_mut(rs).enumerate() {
                    let r = x.decompress_one(o);
                    // past the damaged chunk a sequential reader may have lost its place
                    if touches && Some(self.chunk_of(p + i)) >= self.bad {
                        if r.is_err() {
                            info.label("error in the damaged chunk");
                            break;
                        }
                        continue;
                    }
                    e2f(&format!("{what}: intact chunk"), r)?;
                    self.same(what, p + i, o, &log)?;
                    info.checks += 1;
                }
                pos = if touches { None } else { Some(p + k) };
                continue;
            }
            let r: laz::Result<()> = match (&mut seq, &mut prl) {
                (Some(x), _) => x.decompress_many(&mut b).map_err(|e| e.into()),
                (_, Some(x)) => x.decompress_many(&mut b),
                _ => Ok(()),
            };
            if touches {
                pos = None;
                if r.is_ok() && par {
                    // the parallel reader finds chunks with the table only
                    let bad = self.bad.unwrap();
                    let (f, l) = (self.first(bad), self.first(bad) + self.counts[bad]);
                    let a = f.saturating_sub(p).min(k);
                    let z = (l - p).min(k);
                    self.same(what, p, &b[..a * rs], &log)?;
                    self.same(what, p + z, &b[z * rs..], &log)?;
                    info.checks += 1;
                    pos = Some(p + k);
                }
                if r.is_err() {
                    info.label("error in the damaged chunk");
                }
                continue;
            }
            e2f(&format!("{what}: intact chunks"), r)?;
            self.same(what, p, &b, &log)?;
            info.checks += 1;
            pos = Some(p + k);
        }
        Ok(())
    }

    /// Ranges of intact chunks given to `par_decompress_selective`.
    fn ranges(&self, s: &mut Src, info: &mut Info) -> CaseResult {
        let rs = self.spec.record_size();
        for _ in 0..s.usize(1, 3) {
            let a = s.usize(0, self.counts.len() - 1);
            let mut z = s.usize(a, self.counts.len() - 1) + 1;
            let mut a = a;
            if let Some(b) = self.bad {
                if a <= b && b < z {
                    if b > a {
                        z = b;
                    } else if z > b + 1 {
                        a = b + 1;
                    } else {
                        continue;
                    }
                }
            }
            let entries: Vec<ChunkTableEntry> = (a..z)
                .map(|i| ChunkTableEntry {
                    point_count: self.counts[i] as u64,
                    byte_count: self.sizes[i] as u64,
                })
                .collect();
            let from: usize = 8 + self.sizes[..a].iter().sum::<usize>();
            let len: usize = self.sizes[a..z].iter().sum();
            let k: usize = self.counts[a..z].iter().sum();
            let mut b = vec![0x33u8; k * rs];
            e2f(
                "par_decompress_selective",
                par_decompress_selective(&self.stream[from..from + len], &mut b, &self.spec.vlr(), &entries, self.sel),
            )?;
            self.same("par_decompress_selective", self.first(a), &b, &[format!("chunks {a}..{z}")])?;
            info.checks += 1;
        }
        Ok(())
    }
}

/// What a reader of a damaged chunk can give: the points the chunk gives on its
/// own, up to where that fails.
fn alone_points(spec: &Spec, bytes: &[u8], n: usize, sel: DecompressionSelection) -> Vec<u8> {
    let rs = spec.record_size();
    let mut out = vec![];
    let mut x = decomp(spec, bytes);
    if x.set_fields_from(spec.vlr().items()).is_ok() {
        x.set_selection(sel);
        for _ in 0..n {
            let mut p = vec![0u8; rs];
            if x.decompress_next(&mut p).is_err() {
                break;
            }
            out.extend(p);
        }
    }
    out
}

/// A parallel reader knows where chunks end: what it gives of a damaged one is
/// what that chunk gives on its own, also after a read that failed.
fn strict(s: &mut Src, v: &View, alt: &[u8], info: &mut Info) -> CaseResult {
    let rs = v.spec.record_size();
    let n: usize = v.counts.iter().sum();
    let bad = v.bad.unwrap();
    let (f, l) = (v.first(bad), v.first(bad) + v.counts[bad]);
    let good = f + alt.len() / rs;
    let mut want = v.want.to_vec();
    want[f * rs..good * rs].copy_from_slice(alt);
    let mut x = e2f(
        "ParLasZipDecompressor::selective",
        ParLasZipDecompressor::selective(Cursor::new(v.stream), v.spec.vlr(), v.sel),
    )?;
    // where the reader may be
    let mut maybe = vec![0usize];
    let mut lost = false;
    let mut log = vec![];
    for _ in 0..s.usize(2, 8) {
        if maybe.iter().all(|p| *p >= n) || s.chance(1, 3) {
            let p = if s.chance(1, 2) { s.usize(0, n - 1) } else { s.usize(f, l - 1) };
            log.push(format!("seek {p}"));
            match x.seek(p as u64) {
                Ok(()) => {
                    maybe = vec![p];
                    lost = false;
                }
                Err(e) if v.chunk_of(p) != bad => fail!("parallel reader: seek to an intact chunk", "{e} ({})", log.join(", ")),
                Err(_) => {
                    maybe = (0..=n).collect();
                    lost = true;
                    info.label("error in the damaged chunk");
                }
            }
        }
        let left = n - maybe.iter().min().unwrap();
        if left == 0 {
            continue;
        }
        let k = match s.draw(4) {
            0 => left,
            1 => 1,
            2 => s.usize(1, 5.min(left)),
            _ => s.usize(1, left),
        };
        let mut b = vec![0x66u8; k * rs];
        let r = x.decompress_many(&mut b);
        log.push(format!("read {k}{}", if r.is_ok() { "" } else { " fails" }));
        info.checks += 1;
        if r.is_ok() {
            let ok: Vec<usize> = maybe
                .iter()
                .filter(|p| !(**p < l && **p + k > good) || good == l)
                .filter(|p| want.get(**p * rs..(**p + k) * rs) == Some(&b[..]))
                .map(|p| p + k)
                .collect();
            if ok.is_empty() {
                fail!(
                    if lost { "parallel reader: points after an error" } else { "parallel reader: points of a damaged chunk" },
                    "the {k} points read are not those of the chunks at {}, points {f}..{l} are in the damaged chunk, {} of them can be read ({}; {})",
                    if maybe.len() < 6 { format!("{maybe:?}") } else { format!("{}..={}", maybe[0], maybe[maybe.len() - 1]) },
                    good - f,
                    log.join(", "),
                    v.spec.desc()
                );
            }
            maybe = ok;
        } else {
            // chunks are decompressed as a whole
            if !lost && maybe.iter().all(|p| v.chunk_of(*p + k - 1) < bad || *p >= l) {
                fail!("parallel reader: intact chunks", "reading fails: {} ({})", r.unwrap_err(), log.join(", "));
            }
            info.label("error in the damaged chunk");
            lost = true;
            maybe = maybe.iter().flat_map(|p| *p..=(*p + k).min(n)).collect();
            maybe.sort_unstable();
            maybe.dedup();
        }
    }
    Ok(())
}

/// Stream made of these chunks.
fn assemble(spec: &Spec, parts: &[(&[u8], usize)]) -> Vec<u8> {
    let mut v = vec![0u8; 8];
    let mut entries = vec![];
    for (b, n) in parts {
        v.extend_from_slice(b);
        let n = if spec.variable() { *n as u32 } else { spec.chunk_size };
        entries.push((n, b.len() as u32));
    }
    let off = v.len() as i64;
    v[..8].copy_from_slice(&off.to_le_bytes());
    v.extend(refc::table(spec.variable(), &entries));
    v
}

fn decode(spec: &Spec, stream: &[u8], n: usize, sel: DecompressionSelection) -> Result<Vec<u8>, Fail> {
    let mut b = vec![0x11u8; n * spec.record_size()];
    let mut x = e2f(
        "LasZipDecompressor::selective",
        LasZipDecompressor::selective(Cursor::new(stream), spec.vlr(), sel),
    )?;
    e2f("decompress_many", x.decompress_many(&mut b))?;
    Ok(b)
}

fn content(s: &mut Src, spec: &Spec, n: usize, others: &[Vec<u8>]) -> Vec<u8> {
    let rs = spec.record_size();
    match s.weighted(&[6, 1, 2]) {
        0 => Gen::new(spec).points(s, n),
        1 => {
            // nothing ever changes
            let p = Gen::new(spec).points(s, 1);
            p.repeat(n)
        }
        _ => {
            // as another one, but for one byte of some of its points
            let Some(o) = others.iter().find(|o| o.len() >= n * rs) else {
                return Gen::new(spec).points(s, n);
            };
            let mut v = o[..n * rs].to_vec();
            let k = s.usize(0, rs - 1);
            let mut f = s.fork();
            for p in v.chunks_mut(rs) {
                if f.chance(1, 2) {
                    p[k] = f.draw(256) as u8;
                }
            }
            v
        }
    }
}

fn inner(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let big = tier == Tier::Thorough;
    let o = SpecOpts {
        max_chunk: *s.pick(&[8u32, 60, 60, if big { 2000 } else { 250 }]),
        ..DataOpts::default().spec
    };
    let spec = gen_spec(
        s,
        SpecOpts {
            allow_pointwise: false,
            wide: 10_000,
            ..o
        },
    );
    let rs = spec.record_size();
    // contents
    let m = s.usize(1, 4);
    let mut pool: Vec<Vec<u8>> = vec![];
    for _ in 0..m {
        let n = if spec.variable() {
            let cap = *s.pick(&[3usize, 20, 60, if big { 600 } else { 120 }]);
            s.usize(1, cap)
        } else {
            spec.chunk_size as usize
        };
        let c = content(s, &spec, n, &pool);
        pool.push(c);
    }
    let most = *s.pick(&[3usize, 5, 8]);
    let k = s.usize(1, most);
    let mut seq: Vec<usize> = (0..k).map(|_| s.usize(0, m - 1)).collect();
    if !spec.variable() && s.chance(1, 2) {
        // the last one may have fewer points
        let n = s.usize(1, spec.chunk_size as usize);
        let c = if s.chance(1, 2) {
            // the beginning of another one
            pool[0][..n * rs].to_vec()
        } else {
            content(s, &spec, n, &pool)
        };
        pool.push(c);
        seq.push(pool.len() - 1);
    }
    let counts: Vec<usize> = seq.iter().map(|i| pool[*i].len() / rs).collect();
    let d = Data {
        spec: spec.clone(),
        points: seq.iter().flat_map(|i| pool[*i].iter().copied()).collect(),
        n: counts.iter().sum(),
        chunks: counts.clone(),
    };
    d.label(info);
    info.digest = hash64(&[d.digest(), k as u64]);
    info.desc = format!("chunks {seq:?} of {} contents, {}", pool.len(), d.desc());
    info.nontrivial = d.n >= 4 && seq.iter().any(|i| pool[*i] != pool[seq[0]]);
    let desc = info.desc.clone();

    // bytes
    let single: Vec<Vec<u8>> = pool.iter().map(|p| alone(&spec, p)).collect::<Result<_, _>>()?;
    let want: Vec<u8> = seq.iter().flat_map(|i| single[*i].iter().copied()).collect();
    let sizes: Vec<usize> = seq.iter().map(|i| single[*i].len()).collect();
    let w = pick_writer(s, &d);
    info.label(format!("{w:?}"));
    let mut out = Cursor::new(vec![]);
    write_stream(s, w, &mut out, &d)?;
    let stream = out.into_inner();
    let t = e2f("ChunkTable::read_from", ChunkTable::read_from(Cursor::new(&stream[..]), &spec.vlr()))?;
    let got: Vec<usize> = t.as_ref().iter().map(|e| e.byte_count as usize).collect();
    if got.len() != sizes.len() {
        fail!("number of chunks", "{w:?}: {} chunks for {} ({desc})", got.len(), sizes.len());
    }
    let mut at = 8;
    for (i, len) in got.iter().enumerate() {
        let Some(b) = stream.get(at..at + len) else {
            fail!("chunk table", "{w:?}: chunk {i} is not in the stream ({desc})");
        };
        same_bytes(&format!("{w:?}"), &spec, &single[seq[i]], b, &format!("chunk {i} of {desc}"))?;
        at += len;
        info.checks += 1;
    }
    // one record compressor, reset after each chunk
    {
        let mut c = comp(&spec);
        for (i, x) in seq.iter().enumerate() {
            if i > 0 {
                c.reset();
            }
            e2f("set_fields_from", c.set_fields_from(spec.vlr().items()))?;
            if s.chance(1, 5) && i > 0 {
                // configured and reset without use
                c.reset();
                e2f("set_fields_from", c.set_fields_from(spec.vlr().items()))?;
            }
            e2f("compress_many", c.compress_many(&pool[*x]))?;
            e2f("record done", c.done())?;
        }
        let got = c.box_into_inner().into_inner();
        same_bytes("record compressor after reset", &spec, &want, &got, &desc)?;
        info.checks += 1;
    }

    // each one on its own
    for i in 0..pool.len() {
        let n = pool[i].len() / rs;
        let mut b = vec![0x55u8; n * rs];
        match s.draw(3) {
            0 => {
                let mut x = decomp(&spec, &single[i]);
                e2f("set_fields_from", x.set_fields_from(spec.vlr().items()))?;
                e2f("record decompress_many", x.decompress_many(&mut b))?;
            }
            1 => {
                let e = ChunkTableEntry {
                    point_count: n as u64,
                    byte_count: single[i].len() as u64,
                };
                e2f(
                    "par_decompress of one chunk",
                    laz::laszip::parallel::par_decompress(&single[i], &mut b, &spec.vlr(), &[e]),
                )?;
            }
            _ => {
                let st = assemble(&spec, &[(&single[i], n)]);
                b = decode(&spec, &st, n, DecompressionSelection::all())?;
            }
        }
        expect_points("a chunk on its own", &spec, &pool[i], &b)?;
        info.checks += 1;
    }
    // one record decompressor, reset between the chunks
    {
        let mut x = decomp(&spec, &want);
        let mut at = 0;
        let mut log = vec![];
        for (i, c) in seq.iter().enumerate() {
            if i > 0 {
                x.reset();
            }
            e2f("set_fields_from", x.set_fields_from(spec.vlr().items()))?;
            let n = counts[i];
            let partial = s.chance(1, 3);
            let g = if partial { s.usize(0, n) } else { n };
            let mut b = vec![0x66u8; g * rs];
            e2f("record decompress_many after reset", x.decompress_many(&mut b))?;
            log.push(format!("{g} of {n}"));
            if let Some((item, m)) = diff_points(&spec, &pool[*c][..g * rs], &b) {
                fail!(
                    format!("record decompressor after reset|{item}"),
                    "record decompressor used again after reset: {m} (chunk {i}, decompressed {}; {desc})",
                    log.join(", ")
                );
            }
            at += sizes[i];
            if partial {
                x.get_mut().set_position(at as u64);
            } else if x.get().position() != at as u64 {
                // a sequential reader goes on from there
                fail!(
                    "position after a chunk",
                    "record decompressor is at {} after a chunk that ends at {at} (chunk {i}; {desc})",
                    x.get().position()
                );
            }
            info.checks += 1;
        }
    }

    // readers
    let sel = if spec.layered() && s.chance(1, 3) {
        DecompressionSelection(s.draw(4096) as u32)
    } else {
        DecompressionSelection(u32::MAX)
    };
    let mut expected = vec![];
    for i in &seq {
        let n = pool[*i].len() / rs;
        expected.extend(decode(&spec, &assemble(&spec, &[(&single[*i], n)]), n, sel)?);
    }
    let whole = View {
        spec: &spec,
        stream: &stream,
        counts: &counts,
        want: &expected,
        bad: None,
        sel,
        sizes: &sizes,
    };
    match s.draw(3) {
        0 => whole.history(s, false, info)?,
        1 => whole.history(s, true, info)?,
        _ => whole.ranges(s, info)?,
    }
    // another chunk in place of one
    let k = s.usize(0, seq.len() - 1);
    {
        let n = if spec.variable() { s.usize(1, 40) } else { counts[k] };
        let c = content(s, &spec, n, &pool);
        let cb = alone(&spec, &c)?;
        let mut parts: Vec<(&[u8], usize)> = seq.iter().map(|i| (&single[*i][..], pool[*i].len() / rs)).collect();
        parts[k] = (&cb, n);
        let st = assemble(&spec, &parts);
        let mut counts = counts.clone();
        counts[k] = n;
        let sizes: Vec<usize> = parts.iter().map(|p| p.0.len()).collect();
        let f: usize = counts[..k].iter().sum();
        let mut w = expected.clone();
        let old = pool[seq[k]].len();
        let new = decode(&spec, &assemble(&spec, &[(&cb, n)]), n, sel)?;
        w.splice(f * rs..f * rs + old, new);
        let v = View {
            spec: &spec,
            stream: &st,
            counts: &counts,
            want: &w,
            bad: None,
            sel,
            sizes: &sizes,
        };
        let total: usize = counts.iter().sum();
        let b = decode(&spec, &st, total, sel)?;
        v.same("sequential after a replacement", 0, &b, &[])?;
        if s.chance(1, 2) {
            v.history(s, true, info)?;
        } else {
            v.ranges(s, info)?;
        }
        info.checks += 1;
    }
    // a damaged chunk
    {
        let mut st = stream.clone();
        let from: usize = 8 + sizes[..k].iter().sum::<usize>();
        let mut bad = st[from..from + sizes[k]].to_vec();
        let spots: Vec<usize> = if spec.layered() {
            (rs..(rs + 60).min(bad.len())).collect()
        } else {
            vec![rs.min(bad.len() - 1)]
        };
        let times = s.usize(1, 3);
        for _ in 0..times {
            mutate(s, &mut bad, &spots, false);
        }
        st[from..from + sizes[k]].copy_from_slice(&bad);
        let v = View {
            spec: &spec,
            stream: &st,
            counts: &counts,
            want: &expected,
            bad: Some(k),
            sel,
            sizes: &sizes,
        };
        info.label("damaged chunk");
        match s.draw(7) {
            0 | 1 => v.history(s, false, info)?,
            2 | 3 => v.history(s, true, info)?,
            4 | 5 => strict(s, &v, &alone_points(&spec, &bad, counts[k], sel), info)?,
            _ => v.ranges(s, info)?,
        }
    }
    // a chunk cut short
    if sizes[k] > 1 && s.chance(1, 2) {
        let cut = if s.chance(1, 2) { s.usize(1, (sizes[k] - 1).min(12)) } else { s.usize(1, sizes[k] - 1) };
        let short = &single[seq[k]][..sizes[k] - cut];
        let mut parts: Vec<(&[u8], usize)> = seq.iter().map(|i| (&single[*i][..], pool[*i].len() / rs)).collect();
        parts[k].0 = short;
        let st = assemble(&spec, &parts);
        let sizes: Vec<usize> = parts.iter().map(|p| p.0.len()).collect();
        let v = View {
            spec: &spec,
            stream: &st,
            counts: &counts,
            want: &expected,
            bad: Some(k),
            sel,
            sizes: &sizes,
        };
        info.label("chunk cut short");
        let alt = alone_points(&spec, short, counts[k], sel);
        // what can still be read is right
        let g = alt.len() / rs;
        let f = v.first(k);
        v.same("a chunk cut short", f, &alt, &[format!("{cut} bytes cut, {g} of {} points", counts[k])])?;
        match s.draw(5) {
            0 => v.history(s, false, info)?,
            1 => v.history(s, true, info)?,
            2 => v.ranges(s, info)?,
            _ => strict(s, &v, &alt, info)?,
        }
    }
    Ok(())
}
