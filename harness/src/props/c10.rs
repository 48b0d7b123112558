//! C10 Placement inside a larger file.
use super::util::*;
use super::writers::*;
use super::Prop;
use crate::engine::*;
use crate::io::Far;
use crate::refc::{self, Over};
use laz::laszip::ChunkTable;
use laz::{LasZipAppender, LasZipDecompressor, ParLasZipAppender, ParLasZipDecompressor};
use std::io::{Read, Seek};

pub static PROP: Prop = Prop {
    id: "C10",
    name: "placement inside a larger file",
    f: case,
    quick: 32_000,
    thorough: 700_000,
    rule: "a stream of at least 1 point at a position other than 0",
    assumptions: &["positions up to 2^62, on a file double that holds only the part from the start position on"],
};

pub fn gen_pos(s: &mut Src) -> u64 {
    match s.weighted(&[2, 4, 3, 3]) {
        0 => 0,
        1 => s.range(1, 16),
        2 => s.range(17, 100_000),
        _ => {
            let b = *s.pick(&[31u32, 32, 33, 40, 53, 61]);
            let x = 1u64 << b;
            x - 600 + s.draw(1200)
        }
    }
}

fn case(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let threads = gen_threads(s);
    let mut r = Ok(());
    pool(threads).install(|| r = inner(s, info, tier));
    r
}

fn inner(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let mut o = DataOpts {
        small: 60,
        medium: 150,
        large: if tier == Tier::Quick { 500 } else { 3000 },
        ..Default::default()
    };
    let what = s.weighted(&[4, 5, 3]);
    o.spec.allow_pointwise = what == 1;
    o.spec.max_chunk = 40;
    let d = gen_data(s, &o);
    d.label(info);
    let start = gen_pos(s);
    info.label(match start {
        0 => "at 0",
        1..=16 => "at 1-16",
        17..=100_000 => "at 17-100000",
        _ => "beyond 2 GiB",
    });
    info.digest = hash64(&[d.digest(), start, what as u64]);
    info.nontrivial = d.n > 0 && start > 0;
    info.desc = format!("at {start}: {}", d.desc());
    match what {
        0 => writing(s, info, &d, start),
        1 => reading(s, info, &d, start),
        _ => appending(s, info, &d, start),
    }
}

fn offset(b: &[u8]) -> i64 {
    i64::from_le_bytes(b[..8].try_into().unwrap())
}

fn writing(s: &mut Src, info: &mut Info, d: &Data, start: u64) -> CaseResult {
    let w = pick_writer(s, d);
    info.label(format!("write {w:?}"));
    let seed = s.u64();
    let mut at0 = Far::new(0, vec![]);
    write_stream(&mut Src::forked(seed), w, &mut at0, d)?;
    let base = at0.data;
    // content already there, possibly longer than what is written
    let existing = {
        let n = match s.draw(4) {
            0 => 0,
            1 => s.usize(0, base.len()),
            2 => base.len() + s.usize(0, 30),
            _ => 2 * base.len() + 50,
        };
        let mut f = s.fork();
        f.bytes(n)
    };
    let same_calls = s.chance(1, 2);
    let mut dst = Far::new(start, existing.clone());
    write_stream(
        &mut Src::forked(if same_calls { seed } else { seed ^ 1 }),
        w,
        &mut dst,
        d,
    )?;
    info.checks += 5;
    if let Some(p) = dst.touched {
        fail!(format!("prefix written|{w:?}"), "{w:?}: position {p} before the start was written ({})", info.desc);
    }
    let n = base.len();
    if dst.data.len() < n {
        fail!(format!("short|{w:?}"), "{w:?}: {} bytes written, {n} when at position 0 ({})", dst.data.len(), info.desc);
    }
    let off = offset(&dst.data);
    let rel = offset(&base);
    if off != rel + start as i64 {
        fail!(
            format!("offset|{w:?}"),
            "{w:?}: the offset field is {off}, expected {} ({})",
            rel + start as i64,
            info.desc
        );
    }
    if dst.data[8..n] != base[8..n] {
        let k = (8..n).find(|k| dst.data[*k] != base[*k]).unwrap();
        fail!(
            format!("bytes depend on the position|{w:?}"),
            "{w:?}: byte {k} of {n} differs from the stream written at position 0 (table at {rel}; {})",
            info.desc
        );
    }
    if dst.data.len() != existing.len().max(n) || (existing.len() > n && dst.data[n..] != existing[n..]) {
        fail!(
            format!("bytes after the stream|{w:?}"),
            "{w:?}: content after the {n} bytes of the stream was altered ({})",
            info.desc
        );
    }
    if dst.pos != start + n as u64 {
        fail!(
            format!("final position|{w:?}"),
            "{w:?}: the writer is left at {}, the table ends at {} ({})",
            dst.pos,
            start + n as u64,
            info.desc
        );
    }
    Ok(())
}

/// A stream in a file, with what may follow it. The flag tells whether the
/// position of the table is stored at the end.
fn place(s: &mut Src, d: &Data, start: u64) -> (Vec<u8>, bool) {
    let mut b = refc::stream(&d.spec, &d.chunk_slices(), start, &mut Over(None));
    if d.spec.compressor == 1 {
        let n = s.usize(0, 60);
        let mut f = s.fork();
        b.extend(f.bytes(n));
        return (b, false);
    }
    match s.weighted(&[2, 3, 3]) {
        0 => (b, false),
        1 => {
            let n = s.usize(1, 300);
            let mut f = s.fork();
            b.extend(f.bytes(n));
            (b, false)
        }
        _ => {
            let off = b[..8].to_vec();
            let marker: i64 = match s.draw(5) {
                0 | 1 => -1,
                2 => start as i64,
                3 => 0,
                _ => s.draw(start + 1) as i64,
            };
            b[..8].copy_from_slice(&marker.to_le_bytes());
            b.extend(off);
            (b, true)
        }
    }
}

fn reading(s: &mut Src, info: &mut Info, d: &Data, start: u64) -> CaseResult {
    let rs = d.rs();
    let (file, at_end) = place(s, d, start);
    info.label(if at_end { "table position at the end" } else { "table position first" });
    let vlr = d.spec.vlr();
    let mut got = vec![0u8; d.points.len()];
    let mut src = Far::new(start, file);
    let how = if d.spec.compressor == 1 { s.draw(2) } else { s.draw(5) };
    info.checks += d.n as u64;
    match how {
        0 | 1 => {
            let mut x = e2f("LasZipDecompressor::new", LasZipDecompressor::new(&mut src, vlr))?;
            if how == 0 {
                e2f("decompress_many", x.decompress_many(&mut got))?;
            } else {
                for p in got.chunks_mut(rs) {
                    e2f("decompress_one", x.decompress_one(p))?;
                }
            }
            expect_points("LasZipDecompressor", &d.spec, &d.points, &got)?;
        }
        2 => {
            let mut x = e2f("ParLasZipDecompressor::new", ParLasZipDecompressor::new(&mut src, vlr))?;
            e2f("par decompress_many", x.decompress_many(&mut got))?;
            expect_points("ParLasZipDecompressor", &d.spec, &d.points, &got)?;
        }
        3 => {
            let par = s.chance(1, 2);
            if d.n == 0 {
                return Ok(());
            }
            let mut pts: Vec<usize> = (0..s.usize(1, 4)).map(|_| s.usize(0, d.n - 1)).collect();
            pts.push(0);
            let mut one = vec![0u8; rs];
            if par {
                let mut x = e2f("ParLasZipDecompressor::new", ParLasZipDecompressor::new(&mut src, vlr))?;
                for i in pts {
                    e2f("par seek", x.seek(i as u64))?;
                    e2f("par read after seek", x.decompress_many(&mut one))?;
                    expect_points("par seek", &d.spec, &d.points[i * rs..(i + 1) * rs], &one)?;
                }
            } else {
                let mut x = e2f("LasZipDecompressor::new", LasZipDecompressor::new(&mut src, vlr))?;
                for i in pts {
                    e2f("seek", x.seek(i as u64))?;
                    e2f("read after seek", x.decompress_one(&mut one))?;
                    expect_points("seek", &d.spec, &d.points[i * rs..(i + 1) * rs], &one)?;
                }
            }
        }
        _ => {
            let t = e2f("ChunkTable::read_from", ChunkTable::read_from(&mut src, &vlr))?;
            if src.pos != start + 8 {
                fail!("position after read_from", "the source is left at {}, expected {} ({})", src.pos, start + 8, info.desc);
            }
            if t.len() != d.chunks.len() {
                fail!("table length", "{} entries, expected {} ({})", t.len(), d.chunks.len(), info.desc);
            }
            let mut at = start + 8;
            for (e, p) in t.as_ref().iter().zip(d.chunk_slices()) {
                // each entry designates a chunk at its place in the file
                src.seek(std::io::SeekFrom::Start(at)).unwrap();
                let mut b = vec![0u8; e.byte_count as usize];
                if src.read_exact(&mut b).is_err() || b != refc::chunk(&d.spec, p, &mut Over(None)) {
                    fail!("table entries", "an entry of the table does not designate its chunk ({})", info.desc);
                }
                at += e.byte_count;
            }
        }
    }
    Ok(())
}

fn appending(s: &mut Src, info: &mut Info, d: &Data, start: u64) -> CaseResult {
    let rs = d.rs();
    let most = if s.chance(1, 2) { d.n } else { d.n.min(30) };
    let keep = d.n - s.usize(0, most);
    // the first part, cut at `keep`
    let mut chunks = vec![];
    let mut left = keep;
    for c in &d.chunks {
        if left == 0 {
            break;
        }
        let k = left.min(*c);
        chunks.push(k);
        left -= k;
    }
    let first = Data {
        spec: d.spec.clone(),
        points: d.points[..keep * rs].to_vec(),
        n: keep,
        chunks,
    };
    let par = s.chance(1, 2);
    let vlr = d.spec.vlr();
    let added = &d.points[keep * rs..];
    info.desc += &format!(", {} appended {}", d.n - keep, if par { "in parallel" } else { "" });
    info.label(if par { "append par" } else { "append seq" });
    let append = |f: &mut Far| -> CaseResult {
        if par {
            let mut a = e2f("ParLasZipAppender::new", ParLasZipAppender::new(f, vlr.clone(), keep as u64))?;
            if d.spec.variable() {
                e2f("append", a.compress_chunks([added]))?;
            } else {
                e2f("append", a.compress_many(added))?;
            }
            e2f("append done", a.done())
        } else {
            let mut a = e2f("LasZipAppender::new", LasZipAppender::new(f, vlr.clone(), keep as u64))?;
            e2f("append", a.compress_many(added))?;
            e2f("append done", a.done())
        }
    };
    let mut at0 = Far::new(0, refc::stream(&d.spec, &first.chunk_slices(), 0, &mut Over(None)));
    append(&mut at0)?;
    let n0 = at0.pos as usize;
    let (file, at_end) = place(s, &first, start);
    info.label(if at_end { "table position at the end" } else { "table position first" });
    let before = file.clone();
    let mut f = Far::new(start, file);
    append(&mut f)?;
    info.checks += 5;
    if let Some(p) = f.touched {
        fail!("append|prefix written", "position {p} before the start was written ({})", info.desc);
    }
    if f.data.len() < n0 || f.data[8..n0] != at0.data[8..n0] {
        fail!("append|bytes depend on the position", "the stream differs from the one appended at position 0 ({})", info.desc);
    }
    if offset(&f.data) != offset(&at0.data) + start as i64 {
        fail!(
            "append|offset",
            "the offset field is {}, expected {} ({})",
            offset(&f.data),
            offset(&at0.data) + start as i64,
            info.desc
        );
    }
    if f.pos != start + n0 as u64 {
        fail!("append|final position", "the writer is left at {}, the table ends at {} ({})", f.pos, start + n0 as u64, info.desc);
    }
    // chunks before the last one stay where they are, untouched
    if first.chunks.len() > 1 {
        let kept: usize = first.chunk_slices()[..first.chunks.len() - 1]
            .iter()
            .map(|p| refc::chunk(&d.spec, p, &mut Over(None)).len())
            .sum();
        if f.data[8..8 + kept] != before[8..8 + kept] {
            fail!("append|existing chunks", "chunks that were complete changed ({})", info.desc);
        }
    }
    let mut got = vec![0u8; d.points.len()];
    f.pos = start;
    let mut x = e2f("reading after append", LasZipDecompressor::new(&mut f, d.spec.vlr()))?;
    e2f("reading after append", x.decompress_many(&mut got))?;
    expect_points("reading after append", &d.spec, &d.points, &got)
}
