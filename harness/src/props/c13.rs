//! C13 Damaged or hostile input is contained.
use super::lasfile;
use super::util::*;
use super::Prop;
use crate::engine::*;
use crate::io::{Disk, Plan};
use crate::mutate::{mutate, WEIRD32};
use crate::refc::{self, Over};
use crate::spec::*;
use laz::las::file::{read_header_and_vlrs, QuickHeader, SimpleReader};
use laz::laszip::parallel as par;
use laz::laszip::{ChunkTable, ChunkTableEntry};
use laz::{
    DecompressionSelection, LasZipAppender, LasZipDecompressor, LazDecompressor, LazVlr,
    ParLasZipAppender, ParLasZipDecompressor,
};
use std::io::{Cursor, Seek, SeekFrom};

pub static PROP: Prop = Prop {
    id: "C13",
    name: "damaged or hostile input is contained",
    f: case,
    quick: 80_000,
    thorough: 2_500_000,
    rule: "the input differs from every valid one by a generated damage or hostile construction and at least one point, table or header was asked for",
    assumptions: &[
        "memory is bounded by a fixed allowance (192 MB live above the start of the case) instead of an exact proportion",
        "positions asked for by seek are either small or beyond any possible point: seeking decodes all points before the position in its chunk, whose number the input may claim to be billions",
        "bounds violations are observed as panics, aborts (library UB checks, on in this build) or wrong points, not by a sanitizer",
    ],
};

struct Guard;
impl Guard {
    fn new() -> Guard {
        crate::alloc::limit(Some(192 << 20));
        Guard
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        crate::alloc::limit(None);
    }
}

fn disk(b: &[u8]) -> Disk {
    Disk::with(
        b.to_vec(),
        Plan {
            max_ops: 3_000_000,
            // appending to a stream whose table claims gigabytes goes there
            full_at: Some(b.len() as u64 + (1 << 20)),
            ..Default::default()
        },
    )
}

fn seek_target(s: &mut Src, n: usize) -> u64 {
    match s.draw(8) {
        0..=4 => s.draw(n as u64 + 2),
        5 => s.draw(3000),
        6 => u64::MAX - s.draw(3),
        _ => *s.pick(&[u64::MAX / 2, 1 << 50, i64::MAX as u64]),
    }
}

struct Input<'a> {
    bytes: &'a [u8],
    vlr: &'a LazVlr,
    rs: usize,
    /// points of the original (hint for counts)
    n: usize,
    /// the original points when the bytes are a prefix of the original
    truncated_of: Option<(&'a Spec, &'a [u8])>,
    /// the counts the input claims may be huge while its layers are empty
    bomb: bool,
}

fn seq(s: &mut Src, i: &Input, info: &mut Info) -> CaseResult {
    info.label("sequential reader");
    let sel = if s.chance(2, 3) { u32::MAX } else { s.draw(4096) as u32 };
    let mut d = match LasZipDecompressor::selective(
        disk(i.bytes),
        i.vlr.clone(),
        DecompressionSelection(sel),
    ) {
        Ok(d) => d,
        Err(_) => {
            info.label("refused");
            return Ok(());
        }
    };
    let mut buf = vec![0u8; i.rs];
    if let (Some((spec, pts)), u32::MAX) = (i.truncated_of, sel) {
        for k in 0..i.n {
            buf.fill(0xDD);
            match d.decompress_one(&mut buf) {
                Ok(()) => {
                    info.checks += 1;
                    expect_points(
                        &format!("point {k} of {} read from a truncated stream", i.n),
                        spec,
                        &pts[k * i.rs..(k + 1) * i.rs],
                        &buf,
                    )?;
                }
                Err(_) => {
                    info.label("error");
                    for j in 1..=s.usize(0, 2) {
                        if d.decompress_one(&mut buf).is_ok() {
                            fail!("read after the truncation", "the read {j} after the error at point {k} of {} succeeds", i.n);
                        }
                    }
                    break;
                }
            }
        }
    }
    let mut budget = 700usize;
    let mut errors = 0;
    for _ in 0..s.usize(1, 6) {
        if s.chance(1, 3) {
            let t = seek_target(s, i.n);
            let _ = d.seek(t);
            continue;
        }
        let k = s.usize(1, i.n.max(1) + 5).min(budget);
        budget -= k;
        if s.chance(1, 2) {
            let mut b = vec![0u8; k * i.rs];
            errors += d.decompress_many(&mut b).is_err() as u32;
        } else {
            for _ in 0..k {
                if d.decompress_one(&mut buf).is_err() {
                    errors += 1;
                    if errors > 6 {
                        break;
                    }
                }
            }
        }
        info.checks += 1;
    }
    if errors > 0 {
        info.label("error");
    }
    let _ = d.into_inner();
    Ok(())
}

fn parallel(s: &mut Src, i: &Input, info: &mut Info) -> CaseResult {
    info.label("parallel reader");
    let sel = if s.chance(2, 3) { u32::MAX } else { s.draw(4096) as u32 };
    let mut d = match ParLasZipDecompressor::selective(
        disk(i.bytes),
        i.vlr.clone(),
        DecompressionSelection(sel),
    ) {
        Ok(d) => d,
        Err(_) => {
            info.label("refused");
            return Ok(());
        }
    };
    for _ in 0..s.usize(1, 6) {
        info.checks += 1;
        if s.chance(1, 3) {
            let t = seek_target(s, i.n);
            let _ = LazDecompressor::seek(&mut d, t);
            continue;
        }
        let k = match s.draw(4) {
            0 => 0,
            1 => i.n,
            _ => s.usize(1, i.n.max(1) + 5),
        };
        let mut b = vec![0u8; k * i.rs];
        if d.decompress_many(&mut b).is_err() {
            info.label("error");
        }
    }
    let _ = d.into_inner();
    Ok(())
}

fn buffers(s: &mut Src, i: &Input, info: &mut Info) -> CaseResult {
    info.label("whole buffer");
    let k = match s.draw(3) {
        0 => i.n,
        1 => s.usize(0, i.n),
        _ => i.n + s.usize(1, 50),
    };
    let mut out = vec![0u8; k * i.rs];
    info.checks += 1;
    let r = if i.bomb || s.chance(1, 2) {
        laz::decompress_buffer(i.bytes, &mut out, i.vlr.clone())
    } else {
        laz::par_decompress_buffer(i.bytes, &mut out, i.vlr)
    };
    if r.is_err() {
        info.label("error");
    } else if let Some((spec, pts)) = i.truncated_of {
        let k = k.min(i.n);
        expect_points("truncated buffer", spec, &pts[..k * i.rs], &out[..k * i.rs])?;
    }
    Ok(())
}

fn table(s: &mut Src, i: &Input, info: &mut Info) -> CaseResult {
    info.label("chunk table");
    info.checks += 1;
    let mut src = disk(i.bytes);
    let t = if s.chance(1, 3) {
        let at = s.usize(0, i.bytes.len()) as u64;
        src.seek(SeekFrom::Start(at)).unwrap();
        ChunkTable::read(&mut src, s.chance(1, 2)).ok()
    } else {
        ChunkTable::read_from(&mut src, i.vlr).ok()
    };
    let mut entries: Vec<ChunkTableEntry> = t
        .as_ref()
        .map(|t| t.as_ref().to_vec())
        .unwrap_or_default();
    entries.truncate(50);
    for _ in 0..s.usize(0, 4) {
        let v = [
            0,
            1,
            i.n as u64,
            s.draw(400),
            u32::MAX as u64,
            u64::MAX,
            i64::MAX as u64,
            1 << 40,
        ];
        let e = ChunkTableEntry {
            point_count: *s.pick(&v),
            byte_count: *s.pick(&v),
        };
        let at = s.usize(0, entries.len());
        entries.insert(at, e);
    }
    let k = s.usize(0, i.n + 3);
    let mut out = vec![0u8; k * i.rs];
    let from = s.usize(0, i.bytes.len().min(12));
    let r = par::par_decompress_selective(
        &i.bytes[from..],
        &mut out,
        i.vlr,
        &entries,
        DecompressionSelection(u32::MAX),
    );
    if r.is_err() {
        info.label("error");
    }
    Ok(())
}

fn append(s: &mut Src, i: &Input, info: &mut Info) -> CaseResult {
    info.label("appender");
    info.checks += 1;
    let pc = match s.draw(6) {
        0 => i.n as u64,
        1 => 0,
        2 => s.draw(i.n as u64 + 1),
        3 => i.n as u64 + 1 + s.draw(60),
        4 => u32::MAX as u64,
        _ => *s.pick(&[u64::MAX, i64::MAX as u64, 1 << 40]),
    };
    let k = s.usize(0, 3);
    let new = vec![0x21u8; k * i.rs];
    let variable = i.vlr.uses_variable_size_chunks();
    if s.chance(1, 2) {
        match LasZipAppender::new(disk(i.bytes), i.vlr.clone(), pc) {
            Ok(mut a) => {
                let _ = a.compress_many(&new);
                let _ = a.done();
                let _ = a.into_inner();
            }
            Err(_) => info.label("refused"),
        }
    } else {
        match ParLasZipAppender::new(disk(i.bytes), i.vlr.clone(), pc) {
            Ok(mut a) => {
                if variable {
                    let _ = a.compress_chunks([&new[..]]);
                } else {
                    let _ = a.compress_many(&new);
                }
                let _ = a.done();
                let _ = a.into_inner();
            }
            Err(_) => info.label("refused"),
        }
    }
    Ok(())
}

fn exercise(s: &mut Src, i: &Input, info: &mut Info) -> CaseResult {
    for _ in 0..s.usize(1, 2) {
        // reading in parallel and appending decode whole chunks
        let kind = s.weighted(if i.bomb { &[4, 1, 1, 0, 0] } else { &[4, 1, 1, 3, 2] });
        match kind {
            0 => seq(s, i, info)?,
            1 => buffers(s, i, info)?,
            2 => table(s, i, info)?,
            3 => parallel(s, i, info)?,
            _ => append(s, i, info)?,
        }
    }
    Ok(())
}

fn opts(tier: Tier) -> DataOpts {
    DataOpts {
        small: 40,
        medium: 120,
        large: if tier == Tier::Quick { 300 } else { 1500 },
        spec: SpecOpts {
            allow_pointwise: true,
            // the models of a few thousand extra bytes alone fill the allowance
            wide: 300,
            ..Default::default()
        },
        ..Default::default()
    }
}

/// the valid stream damages start from, and its interesting offsets
fn base(s: &mut Src, tier: Tier) -> Result<(Data, Vec<u8>, Vec<usize>, usize), Fail> {
    let d = gen_data(s, &opts(tier));
    let rs = d.rs();
    let stream = if d.spec.compressor == 1 || s.chance(1, 4) {
        refc::stream(
            &d.spec,
            &d.chunk_slices(),
            0,
            &mut Over(Some((Rng::new(s.u64()), 15))),
        )
    } else {
        compress_seq(&d)?
    };
    let mut spots = vec![];
    let mut table_at = stream.len();
    if d.spec.compressor == 1 {
        spots.extend([0, rs, rs + 4]);
    } else {
        table_at = i64::from_le_bytes(stream[..8].try_into().unwrap()) as usize;
        spots.extend([0, 8, 8 + rs, 8 + rs + 4, 8 + rs + 20, 8 + rs + 40]);
        spots.extend([table_at, table_at + 4, table_at + 8, table_at + 12]);
        spots.push(stream.len().saturating_sub(4));
        let (t, _) =
            refc::read_table(d.spec.variable(), d.spec.chunk_size, &stream[table_at..]).unwrap();
        let mut at = 8;
        for e in t.iter().take(4) {
            at += e.1 as usize;
            spots.push(at.min(stream.len() - 1));
            spots.push((at + rs).min(stream.len() - 1));
        }
    }
    spots.retain(|x| *x < stream.len().max(1));
    Ok((d, stream, spots, table_at))
}

fn case(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    info.nontrivial = true;
    let _g = Guard::new();
    let threads = *s.pick(&[2usize, 1, 4]);
    let mut r = Ok(());
    pool(threads).install(|| r = case_in(s, info, tier));
    r
}

fn case_in(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let what = s.weighted(&[3, 8, 4, 3, 4, 5, 1, 3]);
    info.label(
        [
            "truncated",
            "mutated",
            "hostile table",
            "arbitrary bytes",
            "vlr",
            "las file",
            "gps storm",
            "coder",
        ][what],
    );
    match what {
        0 => {
            let (d, stream, spots, _) = base(s, tier)?;
            info.desc = format!("truncated {}", d.desc());
            let at = if s.chance(1, 3) {
                (*s.pick(&spots) + s.usize(0, 5)).min(stream.len())
            } else {
                s.usize(0, stream.len())
            };
            info.digest = hash64(&[d.digest(), at as u64]);
            let vlr = d.spec.vlr();
            exercise(
                s,
                &Input {
                    bytes: &stream[..at],
                    vlr: &vlr,
                    rs: d.rs(),
                    n: d.n,
                    truncated_of: Some((&d.spec, &d.points)),
                    bomb: false,
                },
                info,
            )
        }
        1 => {
            let (d, mut b, spots, _) = base(s, tier)?;
            let mut log = vec![];
            for _ in 0..1 + s.weighted(&[6, 2, 1, 1]) {
                log.push(mutate(s, &mut b, &spots, true));
            }
            info.desc = format!("{} of {}", log.join(", "), d.desc());
            info.digest = hash_bytes(&b);
            let vlr = d.spec.vlr();
            exercise(
                s,
                &Input {
                    bytes: &b,
                    vlr: &vlr,
                    rs: d.rs(),
                    n: d.n,
                    truncated_of: None,
                    bomb: d.spec.layered() && d.spec.variable(),
                },
                info,
            )
        }
        2 => hostile_table(s, info, tier),
        3 => {
            let spec = gen_spec(s, opts(tier).spec);
            let k = *s.pick(&[0usize, 8, 20, 100, 400, 2000]);
            let k = s.usize(0, k);
            let mut f = s.fork();
            let mut b = f.bytes(k);
            if s.chance(2, 3) && b.len() >= 8 {
                let off = s.usize(0, k) as i64;
                b[..8].copy_from_slice(&off.to_le_bytes());
            }
            info.desc = format!("{k} arbitrary bytes as {}", spec.desc());
            info.digest = hash64(&[hash_bytes(&b), hash_bytes(&spec.vlr_bytes())]);
            let vlr = spec.vlr();
            exercise(
                s,
                &Input {
                    bytes: &b,
                    vlr: &vlr,
                    rs: spec.record_size(),
                    n: 50,
                    truncated_of: None,
                    bomb: spec.layered() && spec.variable(),
                },
                info,
            )
        }
        4 => hostile_vlr(s, info, tier),
        5 => las_file(s, info, tier),
        6 => gps_storm(s, info),
        _ => super::c11::hostile(s, info, tier),
    }
}

fn hostile_table(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let (d, stream, _, table_at) = base(s, tier)?;
    if d.spec.compressor == 1 {
        info.nontrivial = false;
        return Ok(());
    }
    let mut b = stream[..table_at].to_vec();
    let (t, _) =
        refc::read_table(d.spec.variable(), d.spec.chunk_size, &stream[table_at..]).unwrap();
    let mut entries: Vec<(u32, u32)> = t;
    let weird = |s: &mut Src| -> u32 {
        match s.draw(4) {
            0 => s.draw(300) as u32,
            1 => *s.pick(&[0u32, 1]),
            2 => *s.pick(WEIRD32),
            _ => (table_at as u64 - s.draw(table_at as u64)) as u32,
        }
    };
    let mut log = vec![];
    for _ in 0..s.usize(1, 3) {
        let at = s.usize(0, entries.len());
        match s.draw(4) {
            0 if at < entries.len() => {
                entries[at].0 = weird(s);
                log.push(format!("points[{at}]={}", entries[at].0));
            }
            1 if at < entries.len() => {
                entries[at].1 = weird(s);
                log.push(format!("bytes[{at}]={}", entries[at].1));
            }
            2 if at < entries.len() => {
                entries.remove(at);
                log.push(format!("no entry {at}"));
            }
            _ => {
                let e = (weird(s), weird(s));
                entries.insert(at, e);
                log.push(format!("new entry {at} {e:?}"));
            }
        }
    }
    let mut tb = refc::table(d.spec.variable(), &entries);
    if s.chance(1, 3) {
        let c = match s.draw(4) {
            0 => entries.len() as u32 + 1,
            1 => *s.pick(WEIRD32),
            2 => s.draw(5_000_000) as u32,
            _ => 0,
        };
        tb[4..8].copy_from_slice(&c.to_le_bytes());
        log.push(format!("{c} chunks"));
    }
    b.extend(tb);
    if s.chance(1, 3) {
        let l = b.len() as i64;
        let o = match s.draw(8) {
            0 => 0,
            1 => -1,
            2 => l,
            3 => l - 8,
            4 => i64::MAX,
            5 => i64::MIN,
            6 => 1 + s.draw(20) as i64,
            _ => s.draw(l as u64) as i64,
        };
        if s.chance(1, 3) {
            // ... at the end of the stream
            b[..8].copy_from_slice(&(-1i64).to_le_bytes());
            b.extend(o.to_le_bytes());
        } else {
            b[..8].copy_from_slice(&o.to_le_bytes());
        }
        log.push(format!("offset {o}"));
    }
    info.desc = format!("{} in {}", log.join(", "), d.desc());
    info.digest = hash_bytes(&b);
    let vlr = d.spec.vlr();
    exercise(
        s,
        &Input {
            bytes: &b,
            vlr: &vlr,
            rs: d.rs(),
            n: d.n,
            truncated_of: None,
            // (the chunks tell their real number of points)
            bomb: false,
        },
        info,
    )
}

fn hostile_vlr(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let (d, stream, _, _) = base(s, tier)?;
    let mut v = d.spec.vlr_bytes();
    let n_items = d.spec.items.len();
    let mut spots = vec![0, 12, 32];
    for i in 0..n_items {
        spots.push(34 + 6 * i);
        spots.push(34 + 6 * i + 2);
        spots.push(34 + 6 * i + 4);
    }
    let mut log = vec![];
    for _ in 0..s.usize(1, 3) {
        log.push(match s.draw(4) {
            0 => {
                // another value of a 16 bit field
                let at = *s.pick(&spots);
                if at + 2 <= v.len() {
                    let x = s.draw(18) as u16;
                    v[at..at + 2].copy_from_slice(&x.to_le_bytes());
                }
                format!("field @{at}")
            }
            1 => {
                let x = *s.pick(WEIRD32);
                if v.len() >= 16 {
                    v[12..16].copy_from_slice(&x.to_le_bytes());
                }
                format!("chunk size {x}")
            }
            _ => mutate(s, &mut v, &spots, true),
        });
    }
    info.desc = format!("vlr with {}, stream of {}", log.join(", "), d.desc());
    info.digest = hash64(&[hash_bytes(&v), hash_bytes(&stream)]);
    info.checks += 1;
    let vlr = if s.chance(1, 2) {
        LazVlr::from_buffer(&v)
    } else {
        LazVlr::read_from(disk(&v))
    };
    let vlr = match vlr {
        Ok(v) => v,
        Err(e) => {
            info.label("vlr refused");
            let _ = format!("{e} {e:?}");
            return Ok(());
        }
    };
    let rs = vlr.items_size() as usize;
    if rs == 0 || rs > 4096 {
        // models of thousands of extra bytes take hundreds of megabytes
        return Ok(());
    }
    // (compressors too)
    if s.chance(1, 3) {
        info.label("compressor with a hostile vlr");
        let pts = vec![7u8; rs * 3];
        if s.chance(1, 2) {
            let _ = laz::compress_buffer(&mut Cursor::new(vec![]), &pts, vlr.clone());
        } else {
            let _ = laz::ParLasZipCompressor::new(Cursor::new(vec![]), vlr.clone()).map(|mut c| {
                if !vlr.uses_variable_size_chunks() {
                    let _ = c.compress_many(&pts);
                    let _ = c.done();
                }
            });
        }
    }
    let layered = vlr.items().iter().any(|i| i.version() >= 3);
    exercise(
        s,
        &Input {
            bytes: &stream,
            vlr: &vlr,
            rs,
            n: d.n,
            truncated_of: None,
            bomb: layered,
        },
        info,
    )
}

fn las_file(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let mut o = opts(tier);
    o.spec.free_items = false;
    let d = gen_data(s, &o);
    let compressed = s.chance(3, 4);
    let laszip_vlr = s.chance(5, 6);
    let f = lasfile::build(s, &d, compressed, laszip_vlr, |_, at| {
        Ok(refc::stream(&d.spec, &d.chunk_slices(), at, &mut Over(None)))
    });
    let f = f?;
    let mut b = f.bytes.clone();
    let hs = f.header_size as usize;
    let mut spots = vec![24, 94, 96, 100, 104, 105, 107, 247, hs, hs + 18, hs + 20];
    for v in &f.vlrs {
        spots.extend([v + 2, v + 18, v + 20, v + 54, v + 54 + 12, v + 54 + 32]);
    }
    spots.push(f.offset_to_points as usize);
    spots.push(f.offset_to_points as usize + 8 + d.rs());
    let mut log = vec![];
    // the end of what there is comes soon whatever the header promises
    let mut ends = !compressed;
    if s.chance(1, 4) {
        ends = true;
        let c = match s.draw(4) {
            0 => *s.pick(WEIRD32) as u64,
            1 => u64::MAX - s.draw(3),
            2 => u64::MAX / (1 + s.draw(70)),
            _ => 1 << s.draw(64),
        };
        if f.minor >= 4 {
            b[247..255].copy_from_slice(&c.to_le_bytes());
        } else {
            b[107..111].copy_from_slice(&(c as u32).to_le_bytes());
        }
        log.push(format!("{c} points"));
    } else if s.chance(1, 3) {
        let at = if s.chance(1, 2) {
            s.usize(0, b.len().min(f.offset_to_points as usize + 40))
        } else {
            s.usize(0, b.len())
        };
        b.truncate(at);
        log.push(format!("truncated at {at}"));
    } else {
        for _ in 0..s.usize(1, 4) {
            log.push(mutate(s, &mut b, &spots, true));
        }
    }
    info.desc = format!("las file with {}: {}", log.join(", "), d.desc());
    info.digest = hash_bytes(&b);
    info.checks += 1;
    let mut src = disk(&b);
    match s.draw(4) {
        0 => {
            if let Ok((h, v)) = read_header_and_vlrs(&mut src) {
                info.label("header read");
                let _ = format!("{h:?} {v:?}");
            }
        }
        1 => {
            if let Ok(h) = QuickHeader::read_from(&mut src) {
                let _ = laz::las::file::read_vlrs_and_get_laszip_vlr(&mut src, &h);
            }
        }
        k => {
            // models of thousands of extra bytes take hundreds of megabytes
            let size = b.get(105..107).map(|x| u16::from_le_bytes([x[0], x[1]])).unwrap_or(0);
            if size > 4096 {
                info.nontrivial = false;
                return Ok(());
            }
            if let Ok(mut r) = SimpleReader::new(src) {
                info.label("file opened");
                let n = r.header.num_points;
                if k == 2 && (n < 20_000 || ends) {
                    let mut out = vec![];
                    let _ = r.read_to_end(&mut out);
                } else {
                    let mut errors = 0;
                    for _ in 0..1500 {
                        match r.read_next() {
                            None => break,
                            Some(Ok(_)) => info.checks += 1,
                            Some(Err(_)) => {
                                errors += 1;
                                if errors > 5 {
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Gps times may switch between four sequences: nothing in the format bounds
/// how often before a value comes.
fn gps_storm(s: &mut Src, info: &mut Info) -> CaseResult {
    let reps = *s.pick(&[1000usize, 50_000, 400_000]);
    let layered = s.chance(1, 2);
    info.desc = format!("{reps} gps sequence switches, layered {layered}");
    info.digest = hash64(&[reps as u64, layered as u64, s.draw(1000)]);
    let sw = s.range(0, 2) as u32;
    let (spec, bytes) = if !layered {
        let spec = Spec {
            compressor: 2,
            chunk_size: 100,
            items: vec![Item {
                kind: Kind::Gps,
                version: 2,
            }],
        };
        let mut m = refc::Sym::new(6);
        let mut e = refc::Enc::new();
        for _ in 0..reps {
            e.sym(&mut m, 3 + sw);
        }
        e.sym(&mut m, 0);
        let mut c = vec![1u8; 8];
        c.extend(e.done());
        (spec, c)
    } else {
        let spec = Spec {
            compressor: 3,
            chunk_size: 100,
            items: format_items(6, 3 + s.draw(2) as u16, 0),
        };
        // two points that differ by their gps time
        let mut p = vec![0u8; 60];
        p[14] = 0x11;
        p[44] = 0x11;
        p[52] = 1;
        let c = refc::chunk(&spec, &p, &mut Over(None));
        let sizes: Vec<usize> = (0..9)
            .map(|i| u32::from_le_bytes(c[34 + 4 * i..38 + 4 * i].try_into().unwrap()) as usize)
            .collect();
        let mut m = refc::Sym::new(5);
        let mut e = refc::Enc::new();
        for _ in 0..reps {
            e.sym(&mut m, 2 + sw);
        }
        let gps = e.done();
        let keep = c.len() - sizes[8];
        let mut out = c[..keep].to_vec();
        out[34 + 32..38 + 32].copy_from_slice(&(gps.len() as u32).to_le_bytes());
        out.extend(gps);
        (spec, out)
    };
    let mut b = (8 + bytes.len() as i64).to_le_bytes().to_vec();
    b.extend(&bytes);
    b.extend(refc::table(false, &[(100, bytes.len() as u32)]));
    let vlr = spec.vlr();
    exercise(
        s,
        &Input {
            bytes: &b,
            vlr: &vlr,
            rs: spec.record_size(),
            n: 2,
            truncated_of: None,
            bomb: true,
        },
        info,
    )
}
