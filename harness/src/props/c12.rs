//! C12 I/O errors surface and I/O granularity is invisible.
use super::c06::{append_par, append_seq};
use super::lasfile;
use super::util::*;
use super::writers::*;
use super::Prop;
use crate::engine::*;
use crate::io::{Disk, Kind, Plan, Shared, Watch, INJECTED, WATCH};
use crate::refc::{self, Over};
use laz::las::file::{read_header_and_vlrs, QuickHeader, SimpleReader};
use laz::laszip::ChunkTable;
use laz::record::{
    LayeredPointRecordCompressor, LayeredPointRecordDecompressor, RecordCompressor, RecordDecompressor,
    SequentialPointRecordCompressor, SequentialPointRecordDecompressor,
};
use laz::{DecompressionSelection, LasZipDecompressor, LazDecompressor, LazVlr, ParLasZipDecompressor};
use std::io::ErrorKind;

pub static PROP: Prop = Prop {
    id: "C12",
    name: "I/O errors surface and I/O granularity is invisible",
    f: case,
    quick: 18_000,
    thorough: 500_000,
    rule: "at least 3 points processed, with short and interrupted transfers and with at least one injected failure",
    assumptions: &[
        "a sequential reader that does not need the chunk table may go on without it when it cannot be read, and may replace a failed seek over data that is not selected by reading",
        "injected errors have other kinds than Interrupted (retried), and than UnexpectedEof where it means the end of the points (seeks of the sequential reader, reading until the end)",
    ],
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Write(Writer),
    AppendSeq,
    AppendPar,
    Read { par: bool, by_trait: bool },
    Table,
    Vlr,
    File,
    RecordRead,
    RecordWrite,
}

struct Job<'a> {
    what: What,
    d: &'a Data,
    seed: u64,
    start: u64,
    sel: DecompressionSelection,
    /// expected points
    want: &'a [u8],
    /// points there before appending
    from: usize,
    seeks: bool,
    file: Option<&'a lasfile::LasFile>,
}

fn strict(_: &str, _: Kind) -> bool {
    false
}
fn no_table(what: &str, _: Kind) -> bool {
    what == "LasZipDecompressor::selective" || what == "SimpleReader::new"
}
fn no_table_and_skips(what: &str, k: Kind) -> bool {
    no_table(what, k) || k == Kind::Seek
}
fn skips(_: &str, k: Kind) -> bool {
    k == Kind::Seek
}

impl Job<'_> {
    fn run(&self, io: &Shared) -> CaseResult {
        let s = &mut Src::forked(self.seed);
        let d = self.d;
        let rs = d.rs();
        let mut io = io.clone();
        io.disk().pos = self.start;
        match self.what {
            What::Write(w) => write_stream(s, w, &mut io, d),
            What::AppendSeq | What::AppendPar => {
                let added = d.n - self.from;
                let new = if d.spec.variable() { gen_groups(s, added, true) } else { vec![added] };
                if self.what == What::AppendSeq {
                    append_seq(s, &mut io, d, self.from, &new, self.from as u64)
                } else {
                    append_par(s, &mut io, d, self.from, &new, self.from as u64)
                }
            }
            What::Read { par, by_trait } => {
                let same = |what: &str, at: usize, b: &[u8]| {
                    expect_points(&format!("{what} (granularity or error)"), &d.spec, &self.want[at * rs..at * rs + b.len()], b)
                };
                let vlr = d.spec.vlr();
                let mut seq = None;
                let mut prl = None;
                if par {
                    prl = Some(e2f(
                        "ParLasZipDecompressor::selective",
                        ParLasZipDecompressor::selective(io, vlr, self.sel),
                    )?);
                } else {
                    seq = Some(e2f(
                        "LasZipDecompressor::selective",
                        LasZipDecompressor::selective(io, vlr, self.sel),
                    )?);
                }
                let mut pos = 0;
                let groups = gen_groups(s, d.n, true);
                for g in groups {
                    let mut g = g;
                    let mut maybe = vec![];
                    let mut step = || -> CaseResult {
                        if self.seeks && d.n > 0 && s.chance(1, 3) {
                            // until the seek succeeds, the position is either one
                            maybe = vec![pos];
                            pos = s.usize(0, d.n - 1);
                            maybe.push(pos);
                            match (&mut seq, &mut prl) {
                                (Some(x), _) => e2f("seek", x.seek(pos as u64))?,
                                (_, Some(x)) => e2f("seek", x.seek(pos as u64))?,
                                _ => {}
                            }
                            g = s.usize(0, 40);
                        }
                        g = g.min(d.n - pos);
                        maybe = (pos..=pos + g).collect();
                        let mut b = vec![0x77u8; g * rs];
                        match (&mut seq, &mut prl) {
                            (Some(x), _) if by_trait => e2f("decompress_many", LazDecompressor::decompress_many(x, &mut b))?,
                            (Some(x), _) => {
                                if s.chance(1, 2) {
                                    for (i, p) in b.chunks_mut(rs).enumerate() {
                                        e2f("decompress_one", x.decompress_one(p))?;
                                        same("decompress_one", pos + i, p)?;
                                    }
                                } else {
                                    e2f("decompress_many", x.decompress_many(&mut b))?
                                }
                            }
                            (_, Some(x)) if by_trait => {
                                for (i, p) in b.chunks_mut(rs).enumerate() {
                                    e2f("par decompress_one", LazDecompressor::decompress_one(x, p))?;
                                    same("par decompress_one", pos + i, p)?;
                                }
                            }
                            (_, Some(x)) => e2f("par decompress_many", x.decompress_many(&mut b))?,
                            _ => {}
                        }
                        same(if par { "parallel" } else { "sequential" }, pos, &b)?;
                        pos += g;
                        Ok(())
                    };
                    if let Err(e) = step() {
                        if e.sig.contains("|unexpected error|") {
                            let x: &mut dyn LazDecompressor = match (&mut seq, &mut prl) {
                                (Some(x), _) => x,
                                (_, Some(x)) => x,
                                _ => unreachable!(),
                            };
                            after_error(s, x, rs, self.want, maybe)?;
                        }
                        return Err(e);
                    }
                }
                Ok(())
            }
            What::Table => {
                let t = e2f("ChunkTable::read_from", ChunkTable::read_from(&mut io, &d.spec.vlr()))?;
                let got: Vec<u64> = t.as_ref().iter().map(|e| e.byte_count).collect();
                let want: Vec<u64> = d
                    .chunk_slices()
                    .iter()
                    .map(|c| refc::chunk(&d.spec, c, &mut Over(None)).len() as u64)
                    .collect();
                if got != want {
                    fail!("table (granularity)", "chunk table read {got:?}, expected {want:?}");
                }
                let end = io.disk().data.len() as u64;
                io.disk().pos = end;
                e2f("ChunkTable::write_to", t.write_to(&mut io, &d.spec.vlr()))
            }
            What::Vlr => {
                e2f("LazVlr::write_to", d.spec.vlr().write_to(&mut io))?;
                io.disk().pos = self.start;
                let v = e2f("LazVlr::read_from", LazVlr::read_from(&mut io))?;
                let mut b = vec![];
                v.write_to(&mut b).unwrap();
                if b != d.spec.vlr_bytes() {
                    fail!("vlr (granularity)", "LazVlr::read_from gave another VLR ({})", d.desc());
                }
                Ok(())
            }
            What::File => {
                let f = self.file.unwrap();
                if s.chance(1, 3) {
                    let h = e2f("QuickHeader::read_from", QuickHeader::read_from(&mut io))?;
                    if (h.num_points, h.offset_to_points) != (f.n, f.offset_to_points) {
                        fail!("header (granularity)", "QuickHeader {h:?}");
                    }
                }
                if s.chance(1, 3) {
                    let (_, v) = e2f("read_header_and_vlrs", read_header_and_vlrs(&mut io))?;
                    if v.is_some() != f.has_laszip_vlr {
                        fail!("vlrs (granularity)", "read_header_and_vlrs: laszip VLR {}", v.is_some());
                    }
                }
                let mut r = e2f("SimpleReader::new", SimpleReader::new(io))?;
                let mut got = vec![];
                if s.chance(1, 4) {
                    e2f("read_to_end", r.read_to_end(&mut got))?;
                } else {
                    while let Some(p) = r.read_next() {
                        let e = e2f("read_next", p.map(|p| got.extend_from_slice(p)));
                        if e.is_err() {
                            after_file_error(s, &mut r, &d.points, got.len() / rs, rs)?;
                        }
                        e?;
                        let k = got.len() - rs;
                        expect_points("SimpleReader (granularity or error)", &d.spec, &d.points[k..k + rs], &got[k..])?;
                    }
                }
                expect_points("SimpleReader (granularity)", &d.spec, &d.points, &got)
            }
            What::RecordRead => {
                let mut got = vec![0u8; d.n * rs];
                fn go<R: RecordDecompressor<Shared>>(s: &mut Src, mut x: R, d: &Data, got: &mut [u8]) -> CaseResult {
                    e2f("set_fields_from", x.set_fields_from(d.spec.vlr().items()))?;
                    if s.chance(1, 2) {
                        let k = e2f("decompress_until_end_of_file", x.decompress_until_end_of_file(got))?;
                        if k != got.len() {
                            fail!("until end of file", "decompressed {k} of {} bytes", got.len());
                        }
                        Ok(())
                    } else {
                        e2f("record decompress_many", x.decompress_many(got))
                    }
                }
                if d.spec.layered() {
                    go(s, LayeredPointRecordDecompressor::new(io), d, &mut got)?;
                } else {
                    go(s, SequentialPointRecordDecompressor::new(io), d, &mut got)?;
                }
                expect_points("record decompressor (granularity)", &d.spec, &d.points, &got)
            }
            What::RecordWrite => {
                fn go<C: RecordCompressor<Shared>>(mut x: C, d: &Data) -> CaseResult {
                    e2f("set_fields_from", x.set_fields_from(d.spec.vlr().items()))?;
                    e2f("record compress_many", x.compress_many(&d.points))?;
                    e2f("record done", x.done())
                }
                if d.spec.layered() {
                    go(LayeredPointRecordCompressor::new(io), d)
                } else {
                    go(SequentialPointRecordCompressor::new(io), d)
                }
            }
        }
    }
}

/// A reader that failed does not hand out anything wrong later: its reads fail until the
/// next successful seek, or go on at one of the positions it can be at.
pub fn after_error(s: &mut Src, x: &mut dyn LazDecompressor, rs: usize, want: &[u8], mut maybe: Vec<usize>) -> CaseResult {
    let n = want.len() / rs;
    let what = "reading after an error";
    // whether the source works again
    let healthy = WATCH.with(|w| w.borrow().as_ref().map_or(true, |w| !w.disk.disk().plan.sticky));
    let mut must_work = false;
    for i in 0..s.usize(0, 8) {
        if s.chance(1, 3) && n > 0 {
            // often close to where it failed
            let at = if s.chance(1, 2) { s.usize(0, n - 1) } else { (maybe[0] + s.usize(0, 3)).min(n - 1) };
            match x.seek(at as u64) {
                Ok(()) => {
                    maybe = vec![at];
                    must_work = healthy;
                }
                // (a reader that went on without the table)
                Err(laz::LasZipError::MissingChunkTable) => maybe.push(at),
                Err(e) if healthy => fail!(
                    format!("{what}|seek fails"),
                    "{what}: the seek to {at} of {n} points fails although the source works again: {e}"
                ),
                Err(_) => maybe.push(at),
            }
        }
        // a read past the last point may find the padding of its chunk
        let g = (*s.pick(&[1usize, 1, 2, 7, 60])).min(n - maybe.iter().max().unwrap_or(&n));
        if g == 0 {
            continue;
        }
        let mut b = vec![0x55u8; g * rs];
        if x.decompress_many(&mut b).is_ok() {
            let ok: Vec<usize> = maybe
                .iter()
                .filter(|at| want.get(*at * rs..(*at + g) * rs) == Some(&b[..]))
                .map(|at| at + g)
                .collect();
            if ok.is_empty() {
                fail!(
                    what,
                    "{what}: read {} of {g} points succeeds after an error and gives {}.. which is not what is at {}",
                    i + 1,
                    hex(&b[..rs.min(24)]),
                    if maybe.len() < 6 { format!("{maybe:?}") } else { format!("{}..={}", maybe[0], maybe[maybe.len() - 1]) }
                );
            }
            maybe = ok;
        } else if must_work {
            fail!(
                format!("{what}|still fails"),
                "{what}: read {} of {g} points at {maybe:?} of {n} fails although the source works again and the seek succeeded",
                i + 1
            );
        } else {
            maybe = maybe.iter().flat_map(|at| *at..=(*at + g).min(n)).collect();
            maybe.sort_unstable();
            maybe.dedup();
        }
    }
    Ok(())
}

/// The same for `SimpleReader`, which failed when reading the point `at`.
pub fn after_file_error(s: &mut Src, r: &mut SimpleReader, want: &[u8], mut at: usize, rs: usize) -> CaseResult {
    for i in 0..s.usize(0, 4) {
        match r.read_next() {
            Some(Ok(p)) if want.get(at * rs..(at + 1) * rs) == Some(p) => at += 1,
            Some(Ok(p)) => fail!(
                "reading a file after an error",
                "reading a file after an error: read {} succeeds and gives {}.. as point {at}",
                i + 1,
                hex(&p[..rs.min(24)])
            ),
            Some(Err(_)) => {}
            None if at * rs == want.len() => break,
            None => fail!(
                "reading a file after an error|end",
                "reading a file after an error: the end is told after {at} points of {}",
                want.len() / rs
            ),
        }
    }
    Ok(())
}

fn case(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let threads = gen_threads(s);
    let mut r = Ok(());
    pool(threads).install(|| {
        r = inner(s, info, tier);
        WATCH.with(|w| *w.borrow_mut() = None);
    });
    r
}

fn watched(job: &Job, disk: Disk, may_ignore: fn(&str, Kind) -> bool) -> (CaseResult, Shared, Watch) {
    let io = Shared::new(disk);
    WATCH.with(|w| {
        *w.borrow_mut() = Some(Watch {
            disk: io.clone(),
            may_ignore,
            ignored: false,
            swallowed: None,
        })
    });
    let r = job.run(&io);
    let w = WATCH.with(|w| w.borrow_mut().take()).unwrap();
    (r, io, w)
}

fn inner(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let mut o = DataOpts {
        small: 60,
        medium: 150,
        large: if tier == Tier::Quick { 400 } else { 3000 },
        ..Default::default()
    };
    let kind = s.weighted(&[6, 3, 10, 1, 1, 3, 2, 1]);
    o.spec.allow_pointwise = kind == 2;
    o.spec.max_chunk = *s.pick(&[50u32, 50, 400]);
    let mut d = gen_data(s, &o);
    let rs = d.rs();
    if d.spec.layered() && d.spec.items.len() > 1 && d.chunks.len() > 100 {
        // starting a chunk is slow with so many models
        d.chunks.truncate(100);
        d.n = d.chunks.iter().sum();
        d.points.truncate(d.n * rs);
    }
    if kind == 6 || kind == 7 {
        // one chunk
        d.n = d.n.max(1).min(d.chunks.first().copied().unwrap_or(0));
        d.points.truncate(d.n * rs);
        d.chunks = vec![d.n];
    }
    let mut kind = kind;
    if kind == 5 && lasfile::format_of(&d.spec).is_none() {
        kind = 2;
    }
    if (kind == 6 || kind == 7) && d.n == 0 {
        kind = 2;
        d.chunks.clear();
    }
    if kind == 5 && d.spec.compressor == 1 {
        kind = 2;
    }
    d.label(info);
    let start = *s.pick(&[0u64, 0, 100, 5000]);
    let mut sel = DecompressionSelection(u32::MAX);
    let mut want = d.points.clone();
    let mut base: Vec<u8>;
    let mut file = None;
    let mut seeks = false;
    let mut from = 0;
    let mut may_ignore: fn(&str, Kind) -> bool = strict;
    let mut header_ops = 0;
    let table_optional = d.spec.layered() || !d.spec.variable();
    let what = match kind {
        0 => {
            base = vec![0xA5; start as usize];
            if s.chance(1, 4) {
                base.extend(vec![0x3C; s.usize(1, 3000)]);
            }
            What::Write(pick_writer(s, &d))
        }
        1 => {
            base = vec![0xA5; start as usize];
            // the first `k` points are there
            from = if d.spec.variable() {
                let k = s.usize(0, d.chunks.len());
                d.chunks[..k].iter().sum()
            } else {
                s.usize(0, d.n)
            };
            let chunks = if d.spec.variable() {
                let mut v = vec![];
                let mut left = from;
                for c in &d.chunks {
                    if left > 0 {
                        v.push(*c);
                        left -= c;
                    }
                }
                v
            } else {
                fixed_chunks(from, d.spec.chunk_size as usize)
            };
            let first = Data {
                spec: d.spec.clone(),
                points: d.points[..from * rs].to_vec(),
                n: from,
                chunks,
            };
            base.extend(refc::stream(&d.spec, &first.chunk_slices(), start, &mut Over(None)));
            if s.chance(1, 2) {
                What::AppendSeq
            } else {
                What::AppendPar
            }
        }
        2 | 3 => {
            base = vec![0xA5; start as usize];
            let mut st = refc::stream(&d.spec, &d.chunk_slices(), start, &mut Over(None));
            let mut table = d.spec.compressor != 1;
            let mut par = table && s.chance(2, 5);
            let empty = table && kind == 2 && (par || !d.spec.layered()) && s.chance(1, 3);
            if empty {
                add_empty_chunks(s, &d.spec, &mut st, start, info);
            }
            if table && kind == 2 {
                match s.draw(5) {
                    0 => {
                        // the offset is at the end of the file
                        let off = st[..8].to_vec();
                        st[..8].copy_from_slice(&(-1i64).to_le_bytes());
                        st.extend(off);
                        info.label("offset at the end");
                    }
                    1 if table_optional && !empty => {
                        let off = i64::from_le_bytes(st[..8].try_into().unwrap()) as usize - start as usize;
                        st.truncate(off);
                        st[..8].copy_from_slice(&(-1i64).to_le_bytes());
                        table = false;
                        par = false;
                        info.label("no table");
                        let k = st.len();
                        if i64::from_le_bytes(st[k - 8..].try_into().unwrap()) > start as i64 && k > 8 {
                            // the last bytes would do as an offset
                            st.push(0x80);
                        }
                    }
                    _ => {}
                }
            }
            base.extend(st);
            seeks = table && s.chance(1, 3);
            if d.spec.compressor != 1 && table_optional && !par {
                may_ignore = no_table;
            }
            if kind == 2 && d.spec.layered() && s.chance(1, 3) {
                sel = DecompressionSelection(s.draw(4096) as u32);
                info.label("selective");
                let mut out = vec![0u8; d.n * rs];
                let mut src = std::io::Cursor::new(&base[..]);
                src.set_position(start);
                let mut x = e2f(
                    "LasZipDecompressor::selective",
                    LasZipDecompressor::selective(src, d.spec.vlr(), sel),
                )?;
                e2f("decompress_many", x.decompress_many(&mut out))?;
                want = out;
                if !par {
                    may_ignore = no_table_and_skips;
                }
            }
            if kind == 3 {
                may_ignore = strict;
                if d.spec.compressor == 1 {
                    What::Vlr
                } else {
                    What::Table
                }
            } else {
                What::Read {
                    par,
                    by_trait: s.chance(1, 2),
                }
            }
        }
        4 => {
            base = vec![0xA5; start as usize];
            What::Vlr
        }
        5 => {
            let compressed = s.chance(2, 3);
            let vlr = compressed || s.chance(1, 2);
            let f = lasfile::build(s, &d, compressed, vlr, |_, at| {
                Ok(refc::stream(&d.spec, &d.chunk_slices(), at, &mut Over(None)))
            })?;
            base = f.bytes.clone();
            if compressed && table_optional {
                may_ignore = no_table;
            }
            file = Some(f);
            What::File
        }
        6 => {
            base = vec![0xA5; start as usize];
            base.extend(refc::chunk(&d.spec, &d.points, &mut Over(None)));
            if d.spec.layered() {
                // nothing is selected by default at this level: all fields are decoded
                may_ignore = skips;
                What::RecordRead
            } else {
                What::RecordRead
            }
        }
        _ => {
            base = vec![0xA5; start as usize];
            What::RecordWrite
        }
    };
    let start = if kind == 5 { 0 } else { start };
    info.label(
        match what {
            What::Write(w) => format!("write {w:?}"),
            What::Read { par, .. } => if par { "read par" } else { "read seq" }.to_string(),
            w => format!("{w:?}"),
        },
    );
    info.desc = format!("{what:?} {}", d.desc());
    let job = Job {
        what,
        d: &d,
        seed: s.u64(),
        start,
        sel,
        want: &want,
        from,
        seeks,
        file: file.as_ref(),
    };
    info.digest = hash64(&[d.digest(), job.seed, kind as u64]);
    let desc = info.desc.clone();
    let tell = |e: Fail, how: &str| Fail::new(format!("{}|{}", e.sig, how.split(' ').next().unwrap_or("")), format!("{} ({how}; {desc})", e.msg));

    // without anything special
    let (r, io, _) = watched(&job, Disk::with(base.clone(), Plan::default()), strict);
    r.map_err(|e| tell(e, "plain"))?;
    let ops = io.disk().ops;
    let mut others = std::mem::take(&mut io.disk().others);
    let result = std::mem::take(&mut io.disk().data);
    drop(io);
    if kind == 5 {
        // these operations read the header, not the table
        let io = Shared::new(Disk::with(base.clone(), Plan::default()));
        e2f("read_header_and_vlrs", read_header_and_vlrs(&mut io.clone()))?;
        header_ops = io.disk().ops;
    }

    // other transfer sizes
    let jit = |s: &mut Src| Plan {
        jitter: if s.chance(3, 4) { Some(Rng::new(s.u64())) } else { None },
        max_io: *s.pick(&[0usize, 1, 1, 2, 3, 7, 100, 5000]),
        interrupt: *s.pick(&[0u64, 10, 40]),
        max_ops: 100 * ops + 100 * (base.len() + result.len()) as u64 + 10_000,
        ..Default::default()
    };
    for _ in 0..s.usize(1, 2) {
        let p = jit(s);
        let (r, io, _) = watched(&job, Disk::with(base.clone(), p), strict);
        r.map_err(|e| tell(e, "short transfers"))?;
        info.checks += 2;
        if io.disk().data != result {
            fail!(
                format!("bytes depend on transfer sizes|{what:?}"),
                "{what:?}: other bytes are written with short or interrupted transfers ({})",
                d.desc()
            );
        }
    }

    // failures, also in the middle of a transfer
    let mut injected = 0;
    let max_io = if s.chance(1, 3) { *s.pick(&[1usize, 3, 10, 100]) } else { 0 };
    let (mut fail_ops, mut header_ops) = (ops, header_ops);
    if max_io > 0 {
        let short = || Disk::with(base.clone(), Plan { max_io, ..Default::default() });
        let (r, io, _) = watched(&job, short(), strict);
        r.map_err(|e| tell(e, "short transfers"))?;
        fail_ops = io.disk().ops;
        others = std::mem::take(&mut io.disk().others);
        if kind == 5 {
            let io = Shared::new(short());
            e2f("read_header_and_vlrs", read_header_and_vlrs(&mut io.clone()))?;
            header_ops = io.disk().ops;
        }
        info.label("failures between short transfers");
    }
        for _ in 0..s.usize(1, 4) {
        if fail_ops == 0 {
            break;
        }
        let at = match s.draw(5) {
            0 => s.draw(fail_ops.min(12)),
            2 if !others.is_empty() => *s.pick(&others),
            1 => fail_ops - 1 - s.draw(fail_ops.min(12)),
            _ => s.draw(fail_ops),
        };
        let sticky = s.chance(1, 3);
        let fk = *s.pick(&[
            ErrorKind::PermissionDenied,
            ErrorKind::Other,
            ErrorKind::TimedOut,
            ErrorKind::BrokenPipe,
            ErrorKind::WouldBlock,
            ErrorKind::InvalidData,
            ErrorKind::NotFound,
            ErrorKind::InvalidInput,
            ErrorKind::WriteZero,
            ErrorKind::UnexpectedEof,
        ]);
        let means_the_end = matches!(what, What::RecordRead) || seeks && matches!(what, What::Read { par: false, .. });
        let fk = if fk == ErrorKind::UnexpectedEof && means_the_end {
            ErrorKind::Other
        } else {
            fk
        };

        let plan = Plan {
            fail_at: Some(at),
            fail_kind: Some(fk),
            sticky,
            max_io,
            max_ops: 100 * fail_ops + 10_000,
            ..Default::default()
        };
        let m: fn(&str, Kind) -> bool = if kind == 5 && at < header_ops { strict } else { may_ignore };
        let how = format!(
            "operation {at} of {fail_ops} {} {fk:?}",
            if sticky { "and all later ones fail with" } else { "fails with" }
        );
        let (r, io, w) = watched(&job, Disk::with(base.clone(), plan), m);
        injected += 1;
        info.checks += 1;
        if let Some(c) = w.swallowed {
            fail!(
                format!("error swallowed|{}", c.split(" although").next().unwrap_or("")),
                "{how}: success of {c} ({})",
                info.desc
            );
        }
        match r {
            Ok(()) => {
                // everything went well without the operation
                if !w.ignored && io.disk().ops > at {
                    fail!(format!("error swallowed|{what:?}"), "{how}: the calls succeeded ({})", info.desc);
                }
                if w.ignored {
                    info.label("reader went on without the table");
                }
            }
            Err(e) if !e.sig.contains("|unexpected error|") => return Err(tell(e, &format!("error: {how}"))),
            Err(e) => {
                let this = format!("{INJECTED} at operation {at}");
                let exact = e.msg.ends_with(&this) || e.msg.contains(&format!("{this} "));
                let later = e.msg.contains(INJECTED);
                if w.ignored {
                    // seeking needs the table; later operations may fail too
                    if !(e.sig.starts_with("seek|") || later) {
                        return Err(tell(e, &format!("went on without the table: {how}")));
                    }
                } else if !exact && !(later && (m("", Kind::Seek) || m(e.sig.split('|').next().unwrap_or(""), Kind::Read))) {
                    fail!(
                        format!("error replaced|{}", e.sig.split('|').next().unwrap_or("")),
                        "{how}: {} ({})",
                        e.msg,
                        info.desc
                    );
                }
            }
        }
    }

    // no more room
    if let What::Write(_) | What::AppendSeq | What::AppendPar | What::RecordWrite = what {
        let first = (start as usize).min(result.len());
        if result.len() > first {
            let full_at = s.usize(first, result.len() - 1) as u64;
            let zero = s.chance(1, 2);
            let plan = Plan {
                full_at: Some(full_at),
                full_is_zero: zero,
                max_ops: 100 * ops + 10_000,
                ..Default::default()
            };
            let written_up_to = {
                // what is written past the content that stays
                let mut n = result.len();
                while n > 0 && base.get(n - 1) == result.get(n - 1) {
                    n -= 1;
                }
                n as u64
            };
            let (r, _, w) = watched(&job, Disk::with(base.clone(), plan), strict);
            injected += 1;
            info.checks += 1;
            if let Some(c) = w.swallowed {
                fail!(
                    format!("full device ignored|{}", c.split(" although").next().unwrap_or("")),
                    "the device is full at {full_at}{}: success of {c} ({})",
                    if zero { " (0 bytes written)" } else { "" },
                    info.desc
                );
            }
            if r.is_ok() && full_at < written_up_to {
                fail!(format!("full device ignored|{what:?}"), "the device is full at {full_at}: success ({})", info.desc);
            }
            info.label("full device");
        }
    }
    info.nontrivial = d.n >= 3 && injected > 0;
    Ok(())
}
