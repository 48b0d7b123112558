//! C06 Appending preserves and extends.
use super::huge::*;
use super::util::*;
use super::writers::*;
use super::Prop;
use crate::engine::*;
use crate::io::{Disk, Plan};
use crate::refc::{self, Over};
use laz::{LasZipAppender, LasZipDecompressor, ParLasZipAppender, ParLasZipDecompressor};
use std::io::{Cursor, Read, Seek, Write};

pub static PROP: Prop = Prop {
    id: "C06",
    name: "appending preserves and extends",
    f: case,
    quick: 10_000,
    thorough: 600_000,
    rule: "at least one append of at least 1 point to a stream of at least 1 point",
    assumptions: &["with fixed chunks, point_count is not more than the number of points of the stream, as the documentation asks"],
};

fn case(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let threads = gen_threads(s);
    let mut r = Ok(());
    pool(threads).install(|| r = inner(s, info, tier));
    r
}

/// expected content
struct Model {
    /// points of each chunk
    chunks: Vec<usize>,
    /// bytes of each chunk
    bytes: Vec<Vec<u8>>,
    n: usize,
}

impl Model {
    fn stream(&self, d: &Data, start: usize) -> Vec<u8> {
        let body: usize = self.bytes.iter().map(|b| b.len()).sum();
        let mut v = ((start + 8 + body) as i64).to_le_bytes().to_vec();
        for b in &self.bytes {
            v.extend(b);
        }
        let entries: Vec<(u32, u32)> = self
            .chunks
            .iter()
            .zip(&self.bytes)
            .map(|(c, b)| {
                (
                    if d.spec.variable() { *c as u32 } else { d.spec.chunk_size },
                    b.len() as u32,
                )
            })
            .collect();
        v.extend(refc::table(d.spec.variable(), &entries));
        v
    }
    /// keeps the first `n` points, in a chunk that can be written again
    fn cut(&mut self, n: usize) {
        let mut at = 0;
        let k = self.chunks.iter().take_while(|c| {
            at += **c;
            at < n
        });
        let k = if n == 0 { 0 } else { k.count() + 1 };
        self.chunks.truncate(k);
        self.bytes.truncate(k);
        if let Some(c) = self.chunks.last_mut() {
            *c -= at - n;
        }
        self.n = n;
    }
    /// the chunks after `new` (group sizes asked for, in variable mode)
    fn append(&mut self, d: &Data, new: &[usize]) {
        let rs = d.rs();
        let added: usize = new.iter().sum();
        // the last chunk is written again
        let kept = self.chunks.len().saturating_sub(1);
        self.n += added;
        if d.spec.variable() {
            self.chunks.extend(new.iter().filter(|k| **k > 0));
        } else {
            self.chunks = fixed_chunks(self.n, d.spec.chunk_size as usize);
        }
        self.bytes.truncate(kept);
        let mut at: usize = self.chunks[..kept].iter().sum();
        for c in &self.chunks[kept..] {
            self.bytes
                .push(refc::chunk(&d.spec, &d.points[at * rs..(at + c) * rs], &mut Over(None)));
            at += c;
        }
    }
}

/// Appending to a stream of more than 2^32 points or bytes.
fn huge(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let h = gen_huge(s, tier);
    let last = h.real.last().unwrap();
    let (c, v) = (h.d.spec.clone(), h.d.spec.variable());
    info.label("huge stream");
    let rs = h.d.rs();
    // the points of the last chunk, then new ones
    let added = s.usize(0, 30);
    let k = s.usize(0, h.d.n - 1);
    let mut points = h.d.points[last.at * rs..(last.at + last.n) * rs].to_vec();
    points.extend(h.d.points[k * rs..].iter().chain(&h.d.points).take(added * rs));
    let added = points.len() / rs - last.n;
    let new = if v { gen_groups(s, added, true) } else { vec![added] };
    let d = Data {
        spec: c,
        n: last.n + added,
        points,
        chunks: vec![],
    };
    let mut file = h.file.clone();
    // variable chunks tell how many points they have
    let count = h.total - if v { 0 } else { h.d.spec.chunk_size as u64 - last.n as u64 };
    let par = s.chance(1, 2) && v;
    info.desc = format!("{} append {new:?} to {} at {}, table {:?}", if par { "par" } else { "seq" }, h.d.desc(), h.start, h.entries);
    info.digest = hash64(&[h.d.digest(), count, added as u64]);
    info.nontrivial = added > 0;
    let at = |e: Fail| Fail::new(e.sig, format!("{} ({})", e.msg, info.desc));
    if par {
        append_par(s, &mut file, &d, last.n, &new, count).map_err(at)?;
    } else {
        append_seq(s, &mut file, &d, last.n, &new, count).map_err(at)?;
    }
    let mut entries = h.entries.clone();
    entries.pop();
    let mut place = h.start + 8 + entries.iter().map(|e| e.1 as u64).sum::<u64>();
    let chunks: Vec<usize> = if v {
        std::iter::once(last.n).chain(new.iter().copied().filter(|k| *k > 0)).collect()
    } else {
        vec![d.n]
    };
    let mut k = 0;
    for n in chunks {
        let b = refc::chunk(&d.spec, &d.points[k * rs..(k + n) * rs], &mut Over(None));
        if file.get(place, b.len()) != b {
            return Err(at(Fail::new("huge|chunk", format!("the chunk at {place} is not the one of its points"))));
        }
        k += n;
        place += b.len() as u64;
        entries.push((if v { n as u32 } else { d.spec.chunk_size }, b.len() as u32));
    }
    let offset = i64::from_le_bytes(file.get(h.start, 8).try_into().unwrap());
    if offset as u64 != place {
        return Err(at(Fail::new("huge|offset", format!("offset to the table {offset}, it should be {place}"))));
    }
    let table = refc::table(v, &entries);
    if file.get(place, table.len()) != table {
        return Err(at(Fail::new("huge|table", "the table is not that of the chunks".to_string())));
    }
    // the chunks before are as they were
    for r in &h.real[..h.real.len() - 1] {
        let p = h.start + 8 + h.entries[..r.chunk].iter().map(|e| e.1 as u64).sum::<u64>();
        let n = h.entries[r.chunk].1 as usize;
        if file.get(p, n) != h.file.get(p, n) {
            return Err(at(Fail::new("huge|old chunk", format!("the chunk at {p} has changed"))));
        }
    }
    info.checks += entries.len() as u64 + 2;
    Ok(())
}

/// Not too many chunks in the streams of many points.
fn var_chunks(s: &mut Src, n: usize, zero: bool) -> Vec<usize> {
    if n > 2000 {
        let k = s.usize(n / 200, n);
        return fixed_chunks(n, k);
    }
    gen_groups(s, n, zero)
}

fn inner(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    if s.chance(1, 15) {
        return huge(s, info, tier);
    }
    let mut o = DataOpts {
        small: 60,
        medium: 160,
        large: if tier == Tier::Quick { 500 } else { 3000 },
        giant: 3000,
        ..Default::default()
    };
    o.spec.max_chunk = 40;
    let d = gen_data(s, &o);
    let rs = d.rs();
    d.label(info);
    info.desc = d.desc();
    let most = if d.n > 10_000 {
        2
    } else if s.chance(1, 5) {
        8
    } else {
        3
    };
    let rounds = s.usize(1, most);
    // number of points at the start of each round, and at the end
    let c = if d.spec.variable() { 1 } else { d.spec.chunk_size as usize };
    let mut cuts: Vec<usize> = (0..rounds)
        .map(|_| {
            let k = s.usize(0, d.n);
            if s.chance(1, 3) {
                // complete chunks only
                k / c * c
            } else {
                k
            }
        })
        .collect();
    cuts.sort();
    cuts.push(d.n);
    let start = *s.pick(&[0usize, 227, 1000]);
    let mut m = Model {
        chunks: vec![],
        bytes: vec![],
        n: cuts[0],
    };
    m.chunks = if d.spec.variable() {
        var_chunks(s, m.n, false)
    } else {
        fixed_chunks(m.n, c)
    };
    let first = Data {
        spec: d.spec.clone(),
        points: d.points[..m.n * rs].to_vec(),
        n: m.n,
        chunks: m.chunks.clone(),
    };
    // written by laz, or by a writer that does not make the same choices
    let mut over = Over(if s.chance(1, 4) { Some((Rng::new(s.u64()), 15)) } else { None });
    m.bytes = first.chunk_slices().iter().map(|p| refc::chunk(&d.spec, p, &mut over)).collect();
    let mut foreign = over.0.is_some();
    if d.spec.variable() && s.chance(1, 8) {
        // chunks without points, but maybe with bytes
        let mut f = s.fork();
        for _ in 0..s.usize(1, 3) {
            let at = s.usize(0, m.chunks.len());
            let k = if s.chance(1, 2) { 0 } else { s.usize(1, 30) };
            m.chunks.insert(at, 0);
            m.bytes.insert(at, f.bytes(k));
        }
        info.label("chunks without points");
        foreign = true;
    }
    let mut file = vec![0xA5u8; start];
    if !foreign && s.chance(1, 2) {
        let mut out = Cursor::new(file);
        out.set_position(start as u64);
        let w = pick_writer(s, &first);
        write_stream(s, w, &mut out, &first)?;
        file = out.into_inner();
    } else {
        file.extend(m.stream(&d, start));
    }
    if s.chance(1, 4) {
        let k = s.usize(1, 500);
        let mut f = s.fork();
        file.extend(f.bytes(k));
        info.label("data after the stream");
    }
    info.digest = hash64(&[d.digest(), hash64(&cuts.iter().map(|x| *x as u64).collect::<Vec<_>>())]);
    let jitter = s.chance(1, 6);
    let mut log = vec![format!("initial {:?}", m.chunks)];
    let base = d;
    // the points of the stream
    let mut content = base.points[..cuts[0] * rs].to_vec();
    for r in 0..rounds {
        let added = cuts[r + 1] - cuts[r];
        let mut count = m.n as u64;
        if s.chance(1, 6) {
            if m.n > 0 && s.chance(2, 3) {
                // the points after those are written over
                let k = match s.draw(3) {
                    0 => 0,
                    1 => m.n - s.usize(1, m.n.min(3)),
                    _ => s.usize(0, m.n - 1),
                };
                count = k as u64;
                content.truncate(k * rs);
                m.cut(k);
                info.label(if k == 0 { "count of 0" } else { "count too small" });
            } else if base.spec.variable() && m.chunks.last() != Some(&0) {
                // the table tells how many there are
                count += if s.chance(1, 2) { s.draw(100) } else { s.u64() >> s.draw(60).max(1) };
                info.label("count too large");
            } else {
                m.cut(m.n);
            }
            log.push(format!("count {count}"));
        } else {
            m.cut(m.n);
        }
        let from = m.n;
        let to = from + added;
        content.extend(&base.points[cuts[r] * rs..cuts[r + 1] * rs]);
        let d = Data {
            spec: base.spec.clone(),
            points: std::mem::take(&mut content),
            n: to,
            chunks: vec![],
        };
        let par = s.chance(1, 2);
        let new = if d.spec.variable() {
            var_chunks(s, to - from, true)
        } else {
            vec![to - from]
        };
        if from > 0 && to > from {
            info.nontrivial = true;
        }
        info.label(match (from, to - from) {
            (0, 0) => "nothing to nothing",
            (0, _) => "to an empty stream",
            (_, 0) => "nothing added",
            _ if from % c == 0 => "after a full chunk",
            _ => "after an incomplete chunk",
        });
        log.push(format!("{} append {new:?}", if par { "par" } else { "seq" }));
        let at = |e: Fail| Fail::new(e.sig, format!("{} ({}; {})", e.msg, log.join(", "), d.desc()));
        let mut disk = Disk::with(
            std::mem::take(&mut file),
            Plan {
                jitter: if jitter { Some(Rng::new(s.u64())) } else { None },
                interrupt: 10,
                ..Default::default()
            },
        );
        disk.pos = start as u64;
        if par {
            append_par(s, &mut disk, &d, from, &new, count).map_err(at)?;
        } else {
            append_seq(s, &mut disk, &d, from, &new, count).map_err(at)?;
        }
        m.append(&d, &new);
        file = disk.data;
        let want = m.stream(&d, start);
        info.checks += m.chunks.len() as u64 + 2;
        if disk.lowest_write < start as u64 {
            fail!("writes before the start", "position {} written ({}; {})", disk.lowest_write, log.join(", "), d.desc());
        }
        let got = &file[start..file.len().min(start + want.len())];
        if got != &want[..] {
            let mut k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len());
            let table = i64::from_le_bytes(want[..8].try_into().unwrap()) as usize - start;
            let where_ = if k < 8 {
                k = 0;
                format!("offset field (it is {})", i64::from_le_bytes(got[..8].try_into().unwrap()))
            } else if k < table {
                let mut at = 8;
                let i = m.bytes.iter().position(|b| {
                    at += b.len();
                    k < at
                });
                format!("chunk {}", i.unwrap_or(0))
            } else {
                "chunk table".into()
            };
            let part = where_.split(' ').next().unwrap_or("").to_string();
            fail!(
                format!("stream after append|{part}|{}", if par { "par" } else { "seq" }),
                "byte {k} ({where_}) of {} differs from the expected stream, chunks {:?} ({}; {})",
                want.len(),
                m.chunks,
                log.join(", "),
                d.desc()
            );
        }
        // read back
        let mut out = vec![0u8; to * rs];
        let mut src = Cursor::new(&file[..]);
        src.set_position(start as u64);
        if s.chance(1, 2) {
            let mut x = e2f("LasZipDecompressor::new", LasZipDecompressor::new(src, d.spec.vlr())).map_err(at)?;
            e2f("decompress_many", x.decompress_many(&mut out)).map_err(at)?;
        } else {
            let mut x = e2f("ParLasZipDecompressor::new", ParLasZipDecompressor::new(src, d.spec.vlr())).map_err(at)?;
            e2f("par decompress_many", x.decompress_many(&mut out)).map_err(at)?;
        }
        info.checks += to as u64;
        expect_points("reading after append", &d.spec, &d.points[..to * rs], &out).map_err(at)?;
        content = d.points;
    }
    Ok(())
}

pub fn append_seq<W: Read + Write + Seek + Send + Sync>(s: &mut Src, disk: &mut W, d: &Data, from: usize, new: &[usize], count: u64) -> CaseResult {
    let rs = d.rs();
    let mut a = e2f("LasZipAppender::new", LasZipAppender::new(disk, d.spec.vlr(), count))?;
    let mut at = from;
    for (i, g) in new.iter().enumerate() {
        let b = &d.points[at * rs..(at + g) * rs];
        at += g;
        if d.spec.variable() && s.chance(1, 3) {
            e2f("append compress_chunks", a.compress_chunks([b]))?;
            continue;
        }
        let mut k = 0;
        for h in gen_groups(s, *g, true) {
            let p = &b[k * rs..(k + h) * rs];
            k += h;
            if h == 1 && s.chance(1, 2) {
                e2f("append compress_one", a.compress_one(p))?;
            } else {
                e2f("append compress_many", a.compress_many(p))?;
            }
        }
        if d.spec.variable() && (i + 1 < new.len() || s.chance(1, 3)) {
            e2f("append finish_current_chunk", a.finish_current_chunk())?;
        }
    }
    e2f("append done", a.done())?;
    // whatever is done with the file through the appender then is the caller's
    let _ = a.get_mut();
    let _ = a.into_inner();
    Ok(())
}

pub fn append_par<W: Read + Write + Seek + Send + Sync>(s: &mut Src, disk: &mut W, d: &Data, from: usize, new: &[usize], count: u64) -> CaseResult {
    let rs = d.rs();
    let mut a = e2f("ParLasZipAppender::new", ParLasZipAppender::new(disk, d.spec.vlr(), count))?;
    let mut at = from;
    if d.spec.variable() {
        let mut i = 0;
        while i < new.len() {
            let k = s.usize(1, new.len() - i);
            let mut chunks = vec![];
            for g in &new[i..i + k] {
                chunks.push(&d.points[at * rs..(at + g) * rs]);
                at += g;
            }
            e2f("par append compress_chunks", a.compress_chunks(chunks))?;
            i += k;
        }
    } else {
        for g in new {
            for h in gen_groups(s, *g, true) {
                let b = &d.points[at * rs..(at + h) * rs];
                at += h;
                e2f("par append compress_many", a.compress_many(b))?;
            }
        }
    }
    e2f("par append done", a.done())?;
    let _ = a.into_inner();
    Ok(())
}
