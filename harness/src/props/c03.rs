//! C03 Result independent of how calls are split.
use super::util::*;
use super::Prop;
use crate::engine::*;
use crate::refc::{self, Over};
use laz::{LazCompressor, LazCompressorWithInner, LazDecompressor};
use std::io::Cursor;

pub static PROP: Prop = Prop {
    id: "C03",
    name: "result independent of how calls are split",
    f: case,
    quick: 28_000,
    thorough: 800_000,
    rule: "at least 3 points handed over in at least 2 calls that differ from the reference split",
    assumptions: &[],
};

/// One point at a time, a chunk boundary exactly where asked.
fn one_by_one(d: &Data) -> Result<Vec<u8>, Fail> {
    let mut out = Cursor::new(Vec::new());
    let rs = d.rs();
    let mut c = e2f("LasZipCompressor::new", laz::LasZipCompressor::new(&mut out, d.spec.vlr()))?;
    let mut p = d.points.chunks(rs);
    for (i, n) in d.chunks.iter().enumerate() {
        for _ in 0..*n {
            e2f("compress_one", c.compress_one(p.next().unwrap()))?;
        }
        if d.spec.variable() && i + 1 < d.chunks.len() {
            e2f("finish_current_chunk", c.finish_current_chunk())?;
        }
    }
    e2f("done", c.done())?;
    drop(c);
    Ok(out.into_inner())
}

fn feed<C>(s: &mut Src, c: &mut C, rs: usize, pts: &[u8], how: &mut String) -> CaseResult
where
    C: Calls,
{
    let n = pts.len() / rs;
    let mut at = 0;
    for g in gen_groups(s, n, true) {
        let b = &pts[at * rs..(at + g) * rs];
        at += g;
        match s.draw(4) {
            0 => c.many(b)?,
            1 => {
                for p in b.chunks(rs) {
                    c.one(p)?;
                }
            }
            2 => c.t_many(b)?,
            _ => {
                for p in b.chunks(rs) {
                    c.t_one(p)?;
                }
            }
        }
        if how.len() < 60 {
            how.push_str(&format!("{g},"));
        }
    }
    Ok(())
}

trait Calls {
    fn one(&mut self, p: &[u8]) -> CaseResult;
    fn many(&mut self, p: &[u8]) -> CaseResult;
    fn t_one(&mut self, p: &[u8]) -> CaseResult;
    fn t_many(&mut self, p: &[u8]) -> CaseResult;
}

type Seq<'a> = laz::LasZipCompressor<'a, Cursor<Vec<u8>>>;
impl<'a> Calls for Seq<'a> {
    fn one(&mut self, p: &[u8]) -> CaseResult {
        e2f("compress_one", self.compress_one(p))
    }
    fn many(&mut self, p: &[u8]) -> CaseResult {
        e2f("compress_many", self.compress_many(p))
    }
    fn t_one(&mut self, p: &[u8]) -> CaseResult {
        e2f("LazCompressor::compress_one", LazCompressor::compress_one(self, p))
    }
    fn t_many(&mut self, p: &[u8]) -> CaseResult {
        e2f("LazCompressor::compress_many", LazCompressor::compress_many(self, p))
    }
}

fn same(what: &str, d: &Data, want: &[u8], got: &[u8], how: &str) -> CaseResult {
    if want != got {
        let k = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
        fail!(
            format!("bytes depend on the calls|{what}"),
            "{what}: {} bytes differ from the {} bytes of the one by one reference at {k} (calls {how}) ({})",
            got.len(),
            want.len(),
            d.desc()
        );
    }
    Ok(())
}

fn compress_somehow(s: &mut Src, d: &Data, info: &mut Info) -> Result<(Vec<u8>, &'static str, String), Fail> {
    let rs = d.rs();
    let mut how = String::new();
    let way = s.weighted(&[4, 2, 2]);
    if way == 1 && !d.spec.variable() {
        let mut out = Cursor::new(Vec::new());
        e2f("compress_buffer", laz::laszip::compress_buffer(&mut out, &d.points, d.spec.vlr()))?;
        info.label("compress_buffer");
        return Ok((out.into_inner(), "compress_buffer", how));
    }
    let mut c: Seq = e2f(
        "LasZipCompressor::new",
        laz::LasZipCompressor::new(Cursor::new(Vec::new()), d.spec.vlr()),
    )?;
    if s.chance(1, 3) {
        how.push_str("reserve;");
        if s.chance(1, 2) {
            e2f("reserve", c.reserve_offset_to_chunk_table())?;
        } else {
            e2f("reserve", LazCompressor::reserve_offset_to_chunk_table(&mut c))?;
        }
    }
    let name;
    if d.spec.variable() && way >= 1 {
        name = "compress_chunks";
        info.label("compress_chunks");
        let ch = d.chunk_slices();
        let mut i = 0;
        while i < ch.len() {
            let k = s.usize(1, ch.len() - i);
            how.push_str(&format!("chunks*{k};"));
            match s.draw(3) {
                0 => e2f("compress_chunks", c.compress_chunks(&ch[i..i + k]))?,
                1 => e2f("compress_chunks", c.compress_chunks(ch[i..i + k].iter().map(|x| x.to_vec())))?,
                _ => {
                    // chunk by chunk, with points of the next chunk fed by hand
                    for x in &ch[i..i + k] {
                        if s.chance(1, 2) {
                            e2f("compress_chunks", c.compress_chunks([x]))?;
                        } else {
                            feed(s, &mut c, rs, x, &mut how)?;
                            e2f("finish_current_chunk", c.finish_current_chunk())?;
                        }
                    }
                }
            }
            i += k;
        }
    } else if d.spec.variable() {
        name = "finish_current_chunk";
        info.label("finish_current_chunk");
        for (i, x) in d.chunk_slices().iter().enumerate() {
            feed(s, &mut c, rs, x, &mut how)?;
            if i + 1 < d.chunks.len() || s.chance(1, 3) {
                e2f("finish_current_chunk", c.finish_current_chunk())?;
                how.push('|');
                if s.chance(1, 12) {
                    // a boundary asked for twice is one boundary
                    e2f("finish_current_chunk", c.finish_current_chunk())?;
                    how.push('|');
                }
            }
        }
    } else {
        name = "groups";
        info.label("groups");
        feed(s, &mut c, rs, &d.points, &mut how)?;
    }
    if s.chance(1, 2) {
        e2f("done", c.done())?;
    } else {
        e2f("done", LazCompressor::done(&mut c))?;
    }
    let v = match s.draw(3) {
        0 => c.into_inner().into_inner(),
        1 => LazCompressorWithInner::into_inner(c).into_inner(),
        _ => c.get().get_ref().clone(),
    };
    Ok((v, name, how))
}

fn case(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let o = DataOpts {
        small: 90,
        medium: 300,
        large: if tier == Tier::Quick { 1200 } else { 8000 },
        giant: 1500,
        ..Default::default()
    };
    let mut o = o;
    o.spec.allow_pointwise = true;
    let d = gen_data(s, &o);
    d.label(info);
    info.desc = d.desc();
    info.digest = d.digest();
    info.nontrivial = d.n >= 3;
    let rs = d.rs();

    let stream = if d.spec.compressor == 1 {
        refc::stream(&d.spec, &d.chunk_slices(), 0, &mut Over(None))
    } else {
        let want = one_by_one(&d)?;
        for _ in 0..2 {
            let (got, name, how) = compress_somehow(s, &d, info)?;
            info.checks += 1;
            same(name, &d, &want, &got, &how)?;
        }
        want
    };

    // reading
    let mut out = vec![0x5Au8; d.points.len()];
    let mut how = String::new();
    match s.draw(4) {
        0 => {
            e2f(
                "decompress_buffer",
                laz::laszip::decompress_buffer(&stream, &mut out, d.spec.vlr()),
            )?;
            info.label("decompress_buffer");
        }
        1 => {
            // only a prefix is asked for
            let k = s.usize(0, d.n);
            e2f(
                "decompress_buffer",
                laz::laszip::decompress_buffer(&stream, &mut out[..k * rs], d.spec.vlr()),
            )?;
            out.truncate(k * rs);
            info.label("prefix");
        }
        _ => {
            let mut dec = e2f(
                "LasZipDecompressor::new",
                laz::LasZipDecompressor::new(Cursor::new(&stream[..]), d.spec.vlr()),
            )?;
            let mut at = 0;
            for g in gen_groups(s, d.n, true) {
                let b = &mut out[at * rs..(at + g) * rs];
                at += g;
                match s.draw(5) {
                    0 => e2f("decompress_many", dec.decompress_many(b))?,
                    4 => {
                        // the buffer may be larger than the point
                        let more = *s.pick(&[1usize, 2, rs, 1000]);
                        for p in b.chunks_mut(rs) {
                            let mut big = vec![0xA7u8; rs + more];
                            e2f("decompress_one", dec.decompress_one(&mut big))?;
                            p.copy_from_slice(&big[..rs]);
                            if big[rs..].iter().any(|x| *x != 0xA7) {
                                fail!(
                                    "bytes after the point change",
                                    "decompress_one with a buffer of {} bytes changes bytes after the point ({})",
                                    rs + more,
                                    d.desc()
                                );
                            }
                        }
                        info.label("larger buffer");
                    }
                    1 => {
                        for p in b.chunks_mut(rs) {
                            e2f("decompress_one", dec.decompress_one(p))?;
                        }
                    }
                    2 => e2f("LazDecompressor::decompress_many", LazDecompressor::decompress_many(&mut dec, b))?,
                    _ => {
                        let dy: &mut dyn LazDecompressor = &mut dec;
                        for p in b.chunks_mut(rs) {
                            e2f("LazDecompressor::decompress_one", dy.decompress_one(p))?;
                        }
                    }
                }
                if how.len() < 60 {
                    how.push_str(&format!("{g},"));
                }
            }
            info.label("grouped reads");
        }
    }
    info.checks += d.n as u64;
    expect_points("reading in another split", &d.spec, &d.points[..out.len()], &out)
}
