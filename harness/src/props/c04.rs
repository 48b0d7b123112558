//! C04 Parallel and sequential processing are interchangeable.
use super::c12::after_error;
use super::util::*;
use super::Prop;
use crate::engine::*;
use crate::refc;
use laz::laszip::parallel as par;
use laz::laszip::{ChunkTable, ChunkTableEntry};
use laz::{LazCompressor, LazCompressorWithInner, LazDecompressor, ParLasZipCompressor, ParLasZipDecompressor};
use std::io::Cursor;

pub static PROP: Prop = Prop {
    id: "C04",
    name: "parallel and sequential processing are interchangeable",
    f: case,
    quick: 18_000,
    thorough: 500_000,
    rule: "at least 2 chunks and 3 points",
    assumptions: &["thread schedules are those rayon produces with 1 to 7 threads while 8 workers load the machine; they are not enumerated"],
};

fn par_compress(s: &mut Src, d: &Data, info: &mut Info) -> Result<(Vec<u8>, &'static str), Fail> {
    let rs = d.rs();
    let vlr = d.spec.vlr();
    if !d.spec.variable() && s.chance(1, 4) {
        let mut out = Cursor::new(Vec::new());
        e2f("par_compress_buffer", laz::par_compress_buffer(&mut out, &d.points, &vlr))?;
        info.label("par_compress_buffer");
        return Ok((out.into_inner(), "par_compress_buffer"));
    }
    if !d.spec.variable() && s.chance(1, 5) {
        // chunks without offset nor table
        let mut out = Cursor::new(vec![0u8; 8]);
        out.set_position(8);
        let t = e2f("par_compress", par::par_compress(&mut out, &d.points, &vlr))?;
        let end = out.position();
        let mut tb = vec![];
        e2f("write_to", t.write_to(&mut tb, &vlr))?;
        let mut v = out.into_inner();
        v[..8].copy_from_slice(&(end as i64).to_le_bytes());
        v.extend(tb);
        info.label("par_compress");
        return Ok((v, "par_compress"));
    }
    let mut c = e2f("ParLasZipCompressor::new", ParLasZipCompressor::new(Cursor::new(Vec::new()), vlr))?;
    if s.chance(1, 3) {
        e2f("reserve", c.reserve_offset_to_chunk_table())?;
    }
    if d.spec.variable() {
        let ch = d.chunk_slices();
        let mut i = 0;
        while i < ch.len() {
            let k = s.usize(1, ch.len() - i);
            let mut list: Vec<Vec<u8>> = ch[i..i + k].iter().map(|x| x.to_vec()).collect();
            if s.chance(1, 12) {
                let at = s.usize(0, list.len());
                list.insert(at, vec![]);
                info.label("empty chunk asked for");
            }
            if s.chance(1, 2) {
                e2f("compress_chunks", c.compress_chunks(list))?;
            } else {
                e2f("compress_chunks", c.compress_chunks(&list))?;
            }
            i += k;
        }
        info.label("par compress_chunks");
    } else {
        let mut at = 0;
        for g in gen_groups(s, d.n, true) {
            let b = &d.points[at * rs..(at + g) * rs];
            at += g;
            match s.draw(3) {
                0 => e2f("compress_many", c.compress_many(b))?,
                1 => e2f("LazCompressor::compress_many", LazCompressor::compress_many(&mut c, b))?,
                _ => {
                    for p in b.chunks(rs) {
                        e2f("LazCompressor::compress_one", LazCompressor::compress_one(&mut c, p))?;
                    }
                }
            }
        }
        info.label("par compress_many");
    }
    if s.chance(1, 2) {
        e2f("done", c.done())?;
    } else {
        e2f("done", LazCompressor::done(&mut c))?;
    }
    let v = if s.chance(1, 2) { c.into_inner() } else { LazCompressorWithInner::into_inner(c) };
    Ok((v.into_inner(), "ParLasZipCompressor"))
}

fn real_table(d: &Data, stream: &[u8]) -> Result<(Vec<ChunkTableEntry>, usize), Fail> {
    let off = i64::from_le_bytes(stream[..8].try_into().unwrap()) as usize;
    let (t, _) = refc::read_table(d.spec.variable(), d.spec.chunk_size, &stream[off..])
        .ok_or_else(|| Fail::new("table unreadable", "the reference reader cannot read the chunk table"))?;
    if t.len() != d.chunks.len() && !t.iter().any(|e| e.0 == 0) {
        fail!(
            "number of chunks",
            "the table has {} chunks, expected {} ({})",
            t.len(),
            d.chunks.len(),
            d.desc()
        );
    }
    Ok((
        t.iter()
            .enumerate()
            .map(|(i, e)| ChunkTableEntry {
                point_count: if d.spec.variable() { e.0 as u64 } else { d.chunks[i] as u64 },
                byte_count: e.1 as u64,
            })
            .collect(),
        off,
    ))
}

fn par_decompress(s: &mut Src, d: &Data, stream: &[u8], info: &mut Info) -> CaseResult {
    let rs = d.rs();
    let vlr = d.spec.vlr();
    let sel = laz::DecompressionSelection(if s.chance(1, 2) { u32::MAX } else { s.draw(4096) as u32 });
    let all = sel.0 == u32::MAX;
    // what the sequential decompressor gives
    let want = {
        let mut dec = e2f(
            "LasZipDecompressor::selective",
            laz::LasZipDecompressor::selective(Cursor::new(stream), vlr.clone(), sel),
        )?;
        let mut out = vec![0x11u8; d.points.len()];
        e2f("decompress_many", dec.decompress_many(&mut out))?;
        out
    };
    if all {
        expect_points("sequential reading", &d.spec, &d.points, &want)?;
    }
    match s.weighted(&[4, 2, 2]) {
        0 => {
            let what = "ParLasZipDecompressor";
            info.label(what);
            let mut dec = e2f(
                what,
                ParLasZipDecompressor::selective(Cursor::new(stream), vlr.clone(), sel),
            )?;
            let mut out = vec![0x22u8; d.points.len()];
            let mut at = 0;
            let stop = if s.chance(1, 3) { s.usize(0, d.n) } else { d.n };
            for g in gen_groups(s, stop, true) {
                let b = &mut out[at * rs..(at + g) * rs];
                at += g;
                match s.draw(3) {
                    0 => e2f(what, dec.decompress_many(b))?,
                    1 => e2f(what, LazDecompressor::decompress_many(&mut dec, b))?,
                    _ => {
                        for p in b.chunks_mut(rs) {
                            e2f(what, LazDecompressor::decompress_one(&mut dec, p))?;
                        }
                    }
                }
            }
            info.checks += at as u64;
            expect_points("parallel reading", &d.spec, &want[..at * rs], &out[..at * rs])?;
            // more than there is
            if capacity(d) < 1 << 20 && s.chance(1, 2) {
                let too_many = (capacity(d) as usize - at) + s.usize(1, 3);
                let mut b = vec![0u8; too_many * rs];
                info.label("asks too much");
                expect_err(
                    "reading past the end succeeds",
                    &format!("asking for {too_many} points after {at} ({})", d.desc()),
                    dec.decompress_many(&mut b),
                )?;
                after_error(s, &mut dec, rs, &want, vec![at])?;
            }
        }
        1 => {
            let what = "par_decompress_buffer";
            info.label(what);
            let mut out = vec![0x33u8; d.points.len()];
            let mut src = stream.to_vec();
            if s.chance(1, 3) {
                src.extend([0xEE; 20]);
            }
            e2f(what, laz::par_decompress_buffer(&src, &mut out, &vlr))?;
            info.checks += d.n as u64;
            expect_points(what, &d.spec, &d.points, &out)?;
            if capacity(d) < 1 << 20 && s.chance(1, 3) {
                let mut out = vec![0x33u8; (capacity(d) as usize + s.usize(1, 3)) * rs];
                info.label("asks too much");
                expect_err(
                    "par_decompress_buffer past the end succeeds",
                    &d.desc(),
                    laz::par_decompress_buffer(&src, &mut out, &vlr),
                )?;
            }
        }
        _ => {
            let (table, off) = real_table(d, stream)?;
            // a run of chunks
            let a = s.usize(0, table.len());
            let b = s.usize(a, table.len());
            let skip: u64 = table[..a].iter().map(|e| e.byte_count).sum();
            let len: u64 = table[a..b].iter().map(|e| e.byte_count).sum();
            let p0: u64 = table[..a].iter().map(|e| e.point_count).sum();
            let pn: u64 = table[a..b].iter().map(|e| e.point_count).sum();
            let src = &stream[8..off][skip as usize..(skip + len) as usize];
            let mut out = vec![0x44u8; pn as usize * rs];
            let w = &want[p0 as usize * rs..(p0 + pn) as usize * rs];
            if all && s.chance(1, 2) {
                info.label("par_decompress");
                e2f("par_decompress", par::par_decompress(src, &mut out, &vlr, &table[a..b]))?;
            } else {
                info.label("par_decompress_selective");
                e2f(
                    "par_decompress_selective",
                    par::par_decompress_selective(src, &mut out, &vlr, &table[a..b], sel),
                )?;
            }
            info.checks += pn;
            expect_points("par_decompress of a run of chunks", &d.spec, w, &out)?;
        }
    }
    Ok(())
}

fn case(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let d = gen_data(
        s,
        &DataOpts {
            small: 100,
            medium: 400,
            large: if tier == Tier::Quick { 2000 } else { 12000 },
            giant: 600,
            ..Default::default()
        },
    );
    d.label(info);
    info.desc = d.desc();
    info.digest = d.digest();
    info.nontrivial = d.n >= 3 && d.chunks.len() >= 2;
    let threads = gen_threads(s);
    info.label(format!("{threads} threads"));

    let want = compress_seq(&d)?;
    let _ = ChunkTable::default();
    pool(threads).install(|| -> CaseResult {
        let (got, what) = par_compress(s, &d, info)?;
        info.checks += 1;
        if got != want {
            let k = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
            fail!(
                format!("parallel and sequential bytes differ|{what}"),
                "{what} with {threads} threads gives {} bytes, sequential compression {} bytes, first difference at {k} ({})",
                got.len(),
                want.len(),
                d.desc()
            );
        }
        let mut stream = want;
        if s.chance(1, 5) {
            add_empty_chunks(s, &d.spec, &mut stream, 0, info);
        }
        par_decompress(s, &d, &stream, info)
    })
}
