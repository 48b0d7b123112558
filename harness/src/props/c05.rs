//! C05 Seeking positions reading exactly.
use super::huge::*;
use super::util::*;
use super::writers::*;
use super::Prop;
use crate::engine::*;
use crate::refc::{self, Over};
use laz::{DecompressionSelection, LasZipDecompressor, LazDecompressor, ParLasZipDecompressor};
use std::io::{Cursor, Read, Seek};

pub static PROP: Prop = Prop {
    id: "C05",
    name: "seeking positions reading exactly",
    f: case,
    quick: 28_000,
    thorough: 600_000,
    rule: "at least one seek to a point inside the stream followed by a read, in a stream of at least 2 points",
    assumptions: &[],
};

enum Dec<'a, R: Read + Seek + Send + Sync + 'a> {
    Seq(LasZipDecompressor<'a, R>),
    Par(ParLasZipDecompressor<R>),
}

impl<'a, R: Read + Seek + Send + Sync + 'a> Dec<'a, R> {
    fn seek(&mut self, i: u64, by_trait: bool) -> laz::Result<()> {
        match (self, by_trait) {
            (Dec::Seq(d), false) => d.seek(i),
            (Dec::Seq(d), true) => LazDecompressor::seek(d, i),
            (Dec::Par(d), false) => d.seek(i),
            (Dec::Par(d), true) => LazDecompressor::seek(d, i),
        }
    }
    fn read(&mut self, b: &mut [u8], rs: usize, how: u64) -> laz::Result<()> {
        match (self, how) {
            (Dec::Seq(d), 0) => Ok(d.decompress_many(b)?),
            (Dec::Seq(d), 1) => {
                for p in b.chunks_mut(rs) {
                    d.decompress_one(p)?;
                }
                Ok(())
            }
            (Dec::Seq(d), _) => LazDecompressor::decompress_many(d, b),
            (Dec::Par(d), 0) => d.decompress_many(b),
            (Dec::Par(d), 1) => {
                for p in b.chunks_mut(rs) {
                    LazDecompressor::decompress_one(d, p)?;
                }
                Ok(())
            }
            (Dec::Par(d), _) => LazDecompressor::decompress_many(d, b),
        }
    }
}

/// position of the model
#[derive(Clone, Copy, PartialEq, Debug)]
enum Pos {
    At(usize),
    /// a read here must fail
    PastEnd,
    /// nothing is promised until the next seek
    Unknown,
}

/// Streams of more than 2^32 points or bytes.
fn huge(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let h = gen_huge(s, tier);
    let d = &h.d;
    let rs = d.rs();
    let parallel = d.spec.variable() && s.chance(1, 2);
    info.label("huge stream");
    info.label(if parallel { "parallel" } else { "sequential" });
    info.desc = format!("{} at {}, table {:?}", d.desc(), h.start, &h.entries[..h.entries.len().min(5)]);
    info.digest = hash64(&[d.digest(), h.total, h.start]);
    let at = |e: Fail, log: &[String]| Fail::new(e.sig, format!("{} ({}; {}, table {:?})", e.msg, log.join(", "), d.desc(), h.entries));
    let mut dec = if parallel {
        Dec::Par(e2f(
            "ParLasZipDecompressor of a huge stream",
            ParLasZipDecompressor::new(h.file.clone(), d.spec.vlr()),
        )?)
    } else {
        Dec::Seq(e2f("LasZipDecompressor of a huge stream", LasZipDecompressor::new(h.file.clone(), d.spec.vlr()))?)
    };
    let mut log = vec![];
    for _ in 0..s.usize(1, 10) {
        let by_trait = s.chance(1, 3);
        if s.chance(1, 6) {
            let i = h.total.saturating_add(s.draw(3) * s.draw(1 << 33));
            log.push(format!("seek {i}"));
            let _ = dec.seek(i, by_trait);
            let mut b = vec![0u8; rs];
            if dec.read(&mut b, rs, s.draw(3)).is_ok() {
                return Err(at(Fail::new("huge|read past the end succeeds", "reading past the end succeeds"), &log));
            }
            info.checks += 1;
            continue;
        }
        let mut r = s.usize(0, h.real.len() - 1);
        let mut k = s.usize(0, h.real[r].n - 1);
        let i = h.real[r].first + k as u64;
        log.push(format!("seek {i}"));
        e2f("seek in a huge stream", dec.seek(i, by_trait)).map_err(|e| at(e, &log))?;
        for _ in 0..s.usize(1, 3) {
            // points that are there from here on
            let mut left = h.real[r].n - k;
            let mut last = r;
            while d.spec.variable() && last + 1 < h.real.len() && h.real[last + 1].chunk == h.real[last].chunk + 1 {
                last += 1;
                left += h.real[last].n;
            }
            let n = s.usize(0, left);
            let mut b = vec![0xC3u8; n * rs];
            log.push(format!("read {n}"));
            e2f("read in a huge stream", dec.read(&mut b, rs, s.draw(3))).map_err(|e| at(e, &log))?;
            let from = (h.real[r].at + k) * rs;
            info.checks += n as u64;
            if n > 0 {
                info.nontrivial = d.n >= 2;
            }
            expect_points("points of a huge stream", &d.spec, &d.points[from..from + n * rs], &b).map_err(|e| at(e, &log))?;
            k += n;
            while r < last && k >= h.real[r].n {
                k -= h.real[r].n;
                r += 1;
            }
        }
    }
    Ok(())
}

fn case(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    if s.chance(1, 12) {
        return huge(s, info, tier);
    }
    let d = gen_data(
        s,
        &DataOpts {
            small: 90,
            medium: 300,
            large: if tier == Tier::Quick { 1000 } else { 6000 },
            giant: 2000,
            ..Default::default()
        },
    );
    d.label(info);
    info.desc = d.desc();
    info.digest = d.digest();
    let rs = d.rs();
    let n = d.n;
    let parallel = s.chance(2, 5);
    info.label(if parallel { "parallel" } else { "sequential" });
    let start = if s.chance(1, 2) { 0 } else { s.usize(1, 700) };
    let sel = DecompressionSelection(if s.chance(2, 3) { u32::MAX } else { s.draw(4096) as u32 });
    if sel.0 != u32::MAX {
        info.label("selective");
    }
    // a stream by laz or by a conforming writer that moves values around less
    let mut stream = if s.chance(1, 3) {
        refc::stream(&d.spec, &d.chunk_slices(), start as u64, &mut Over(Some((Rng::new(s.u64()), 20))))
    } else {
        let mut c = Cursor::new(vec![0u8; start]);
        c.set_position(start as u64);
        let w = pick_writer(s, &d);
        write_stream(s, w, &mut c, &d)?;
        c.into_inner().split_off(start)
    };
    if s.chance(1, 5) {
        add_empty_chunks(s, &d.spec, &mut stream, start as u64, info);
    }
    // other data follows the table
    if s.chance(1, 2) {
        let k = s.usize(1, 400);
        let mut f = s.fork();
        stream.extend(f.bytes(k));
        info.label("data after the table");
    }
    let mut file = vec![0x3Cu8; start];
    file.extend(stream);
    let source = || {
        let mut c = Cursor::new(&file[..]);
        c.set_position(start as u64);
        c
    };
    let vlr = d.spec.vlr();
    let want = {
        let mut dec = e2f(
            "LasZipDecompressor::selective",
            LasZipDecompressor::selective(source(), vlr.clone(), sel),
        )?;
        let mut out = vec![0u8; n * rs];
        e2f("decompress_many", dec.decompress_many(&mut out))?;
        out
    };
    if sel.0 == u32::MAX {
        expect_points("reading without seeking", &d.spec, &d.points, &want)?;
    }

    let mut dec = if parallel {
        Dec::Par(e2f(
            "ParLasZipDecompressor",
            ParLasZipDecompressor::selective(source(), vlr, sel),
        )?)
    } else {
        Dec::Seq(e2f(
            "LasZipDecompressor",
            LasZipDecompressor::selective(source(), vlr, sel),
        )?)
    };
    let cap = capacity(&d) as usize;
    let threads = gen_threads(s);
    let steps = s.usize(1, 12);
    let mut pos = Pos::At(0);
    let mut log: Vec<String> = vec![];
    let mut sought = false;
    let run = |s: &mut Src, info: &mut Info| -> CaseResult {
        for _ in 0..steps {
            if s.chance(1, 2) {
                // seek
                let i = match s.weighted(&[6, 3, 2, 2]) {
                    0 => s.draw(n.max(1) as u64) as usize,
                    1 => {
                        // around a chunk boundary
                        let c = s.usize(0, d.chunks.len());
                        let b: usize = d.chunks[..c].iter().sum();
                        (b + s.usize(0, 2)).saturating_sub(1)
                    }
                    2 => n.saturating_sub(s.usize(0, 3)),
                    _ => match s.draw(4) {
                        0 => cap,
                        1 => cap + s.usize(0, 100),
                        2 => cap + 1_000_000,
                        _ => u32::MAX as usize + s.usize(0, 3),
                    },
                };
                log.push(format!("seek {i}"));
                let r = dec.seek(i as u64, s.chance(1, 3));
                if i < n {
                    if let Err(e) = r {
                        fail!(
                            format!("seek fails|{}", normalise(&e.to_string())),
                            "seek to point {i} of {n} fails: {e} ({}; {})",
                            log.join(", "),
                            d.desc()
                        );
                    }
                    pos = Pos::At(i);
                    sought = true;
                    info.label("seek inside");
                } else if i >= cap {
                    if let Err(e) = r {
                        fail!(
                            format!("seek beyond the end fails|{}", normalise(&e.to_string())),
                            "seek to {i} beyond the {n} points fails instead of the following read: {e} ({}; {})",
                            log.join(", "),
                            d.desc()
                        );
                    }
                    pos = Pos::PastEnd;
                    info.label("seek beyond the end");
                } else {
                    // fixed chunks do not record how many points the last has
                    pos = Pos::Unknown;
                    info.label("seek beyond the points of the last fixed chunk");
                }
            } else {
                match pos {
                    Pos::At(p) => {
                        let k = if s.chance(1, 5) { n - p } else { s.usize(0, (n - p).min(40)) };
                        let how = s.draw(3);
                        let mut b = vec![0xC3u8; k * rs];
                        log.push(format!("read {k}"));
                        let r = dec.read(&mut b, rs, how);
                        if let Err(e) = r {
                            fail!(
                                format!("read after seek fails|{}", normalise(&e.to_string())),
                                "reading {k} points at {p} fails: {e} ({}; {})",
                                log.join(", "),
                                d.desc()
                            );
                        }
                        info.checks += k as u64;
                        if sought && k > 0 {
                            info.nontrivial = n >= 2;
                        }
                        if let Some((item, m)) = diff_points(&d.spec, &want[p * rs..(p + k) * rs], &b) {
                            fail!(
                                format!("wrong points|{}|{item}", if parallel { "par" } else { "seq" }),
                                "reading {k} points at {p}: {m} ({}; {})",
                                log.join(", "),
                                d.desc()
                            );
                        }
                        pos = Pos::At(p + k);
                        // past the end of what the table accounts for
                        if p + k == cap && s.chance(1, 2) {
                            pos = Pos::PastEnd;
                        }
                    }
                    Pos::PastEnd => {
                        let k = s.usize(1, 3);
                        let mut b = vec![0u8; k * rs];
                        log.push(format!("read {k} past the end"));
                        let how = s.draw(3);
                        if dec.read(&mut b, rs, how).is_ok() {
                            fail!(
                                format!("read past the end succeeds|{}", if parallel { "par" } else { "seq" }),
                                "reading {k} points past the end succeeds ({}; {})",
                                log.join(", "),
                                d.desc()
                            );
                        }
                        info.checks += 1;
                        info.label("read past the end");
                        pos = Pos::Unknown;
                    }
                    Pos::Unknown => {
                        let k = s.usize(1, 3);
                        let mut b = vec![0u8; k * rs];
                        log.push(format!("read {k} (unspecified)"));
                        let _ = dec.read(&mut b, rs, 0);
                    }
                }
            }
        }
        Ok(())
    };
    let mut run = run;
    if parallel {
        // the pool needs a closure that can be sent: run on this thread's pool
        let r = pool(threads);
        let mut res = Ok(());
        r.install(|| res = run(s, info));
        res
    } else {
        run(s, info)
    }
}
