//! C17 Reading complete LAS/LAZ files.
use super::c12::after_file_error;
use super::lasfile::{self, LasFile};
use super::util::*;
use super::writers::*;
use super::Prop;
use crate::engine::*;
use crate::io::{Disk, Plan, Sparse};
use crate::refc::{self, Over};
use crate::spec::*;
use laz::las::file::{
    point_format_id_compressed_to_uncompressd, read_header_and_vlrs, read_vlrs_and_get_laszip_vlr, QuickHeader,
    SimpleReader,
};
use laz::{LasZipDecompressor, ParLasZipDecompressor};
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::sync::OnceLock;

pub static PROP: Prop = Prop {
    id: "C17",
    name: "reading complete LAS/LAZ files",
    f: case,
    quick: 48_000,
    thorough: 2_500_000,
    rule: "a file of at least 2 points is read to its end, or a file with a defect is opened",
    assumptions: &[
        "the signature and the fields of the header the reader does not report are not checked by it",
        "LAS 1.0 to 1.4 with the header sizes their specifications give, or larger",
    ],
};

fn case(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let threads = gen_threads(s);
    let mut r = Ok(());
    pool(threads).install(|| r = inner(s, info, tier));
    r
}

fn inner(s: &mut Src, info: &mut Info, _tier: Tier) -> CaseResult {
    match s.weighted(&[12, 8, 1]) {
        0 => valid(s, info),
        1 => defective(s, info),
        _ => reference_files(s, info),
    }
}

struct Made {
    d: Data,
    f: LasFile,
    how: String,
}

fn make(s: &mut Src, compressed: bool, laszip_vlr: bool) -> Result<Made, Fail> {
    let d = gen_data(
        s,
        &DataOpts {
            spec: SpecOpts {
                allow_pointwise: true,
                free_items: false,
                max_extra: 40,
                las_size: true,
                ..SpecOpts::default()
            },
            small: 40,
            medium: 150,
            large: 400,
            min_points: 0,
            giant: 0,
            chunky: false,
        },
    );
    let mut how = String::new();
    let f = lasfile::build(s, &d, compressed, laszip_vlr, |s, at| {
        if d.spec.compressor == 1 || s.chance(1, 4) {
            how = "reference writer".into();
            return Ok(refc::stream(&d.spec, &d.chunk_slices(), at, &mut Over(None)));
        }
        let w = pick_writer(s, &d);
        how = format!("{w:?}");
        let mut c = Cursor::new(vec![0u8; at as usize]);
        c.set_position(at);
        write_stream(s, w, &mut c, &d)?;
        Ok(c.into_inner()[at as usize..].to_vec())
    })?;
    Ok(Made { d, f, how })
}

/// A source over the bytes, at some position, perhaps with short reads.
fn source(s: &mut Src, bytes: Vec<u8>) -> Disk {
    let plan = match s.draw(4) {
        0 => Plan { max_io: s.usize(1, 9), ..Plan::default() },
        1 => Plan {
            jitter: Some(Rng::new(s.u64())),
            interrupt: 10,
            ..Plan::default()
        },
        _ => Plan::default(),
    };
    let n = bytes.len();
    let mut x = Disk::with(bytes, plan);
    x.pos = s.usize(0, n) as u64;
    x
}

fn base_size(format: u8) -> u16 {
    [20, 28, 26, 34, 57, 63, 30, 36, 38, 59, 67][format as usize]
}

/// What the header tells, but for the compressed bit of the point format.
fn check_header(what: &str, h: &QuickHeader, f: &LasFile, format: u8) -> CaseResult {
    let got = (
        (h.major, h.minor, h.header_size, h.offset_to_points),
        (h.num_vlrs, h.point_format_id, h.point_size, h.num_points),
    );
    let want = (
        (1, f.minor, f.header_size, f.offset_to_points),
        (f.num_vlrs, format, f.point_size, f.n),
    );
    if got != want {
        let fields = [
            ("version", (got.0 .0, got.0 .1) != (want.0 .0, want.0 .1)),
            ("header size", got.0 .2 != want.0 .2),
            ("offset to points", got.0 .3 != want.0 .3),
            ("number of VLRs", got.1 .0 != want.1 .0),
            ("point format", got.1 .1 != want.1 .1),
            ("point size", got.1 .2 != want.1 .2),
            ("number of points", got.1 .3 != want.1 .3),
        ];
        let n = fields.iter().find(|x| x.1).unwrap().0;
        fail!(format!("{what}|header|{n}"), "{what}: header {h:?}, expected {want:?}");
    }
    let extra = h.num_extra_bytes();
    if extra != f.point_size - base_size(f.format) {
        fail!(
            format!("{what}|num_extra_bytes"),
            "{what}: {extra} extra bytes, points of format {} have {} bytes",
            f.format,
            f.point_size
        );
    }
    if point_format_id_compressed_to_uncompressd(h.point_format_id) != f.format {
        fail!(
            "point_format_id_compressed_to_uncompressd",
            "{:#x} is format {}, not {}",
            h.point_format_id,
            f.format,
            point_format_id_compressed_to_uncompressd(h.point_format_id)
        );
    }
    Ok(())
}

fn same_vlr(what: &str, v: &Option<laz::LazVlr>, spec: Option<&Spec>) -> CaseResult {
    match (v, spec) {
        (None, None) => Ok(()),
        (Some(v), Some(spec)) => {
            let mut b = vec![];
            e2f("LazVlr::write_to", v.write_to(&mut b))?;
            let mut want = spec.vlr_bytes();
            // any chunk size means "no chunks" for the point-wise compressor,
            // and 0 is another way to write "variable"
            if spec.chunk_size == 0 {
                b[12..16].fill(0);
                want[12..16].fill(0);
            }
            if b != want {
                fail!(
                    format!("{what}|laszip vlr"),
                    "{what}: the laszip VLR is {}, the file has {}",
                    hex(&b),
                    hex(&want)
                );
            }
            Ok(())
        }
        (v, _) => fail!(
            format!("{what}|laszip vlr presence"),
            "{what}: laszip VLR {}found, the file {} one",
            if v.is_some() { "" } else { "not " },
            if spec.is_some() { "has" } else { "has not" }
        ),
    }
}

/// Reads with the simple reader: some points one by one, then the rest.
fn simple<R: Read + Seek + Send + Sync>(s: &mut Src, what: &str, m: &Made, src: R, n: usize) -> CaseResult {
    let rs = m.d.rs();
    let mut r = e2f(&format!("{what}: SimpleReader::new"), SimpleReader::new(src))?;
    check_header(&format!("{what}: SimpleReader"), &r.header, &LasFile { n: n as u64, ..clone(&m.f) }, m.f.format)?;
    let one = match s.draw(3) {
        0 => 0,
        1 => n,
        _ => s.usize(0, n),
    };
    let mut got = vec![];
    for _ in 0..one {
        match r.read_next() {
            Some(p) => {
                let p = e2f(&format!("{what}: read_next"), p)?;
                if p.len() != rs {
                    fail!(
                        format!("{what}|size of a point"),
                        "{what}: read_next gives {} bytes, points have {rs}",
                        p.len()
                    );
                }
                got.extend_from_slice(p);
            }
            None => fail!(
                format!("{what}|early end"),
                "{what}: the end after {} points of {n}",
                got.len() / rs
            ),
        }
    }
    if one < n || s.chance(1, 2) {
        let mut rest = vec![];
        let k = e2f(&format!("{what}: read_to_end"), r.read_to_end(&mut rest))?;
        if k != n - one || rest.len() != k * rs {
            fail!(
                format!("{what}|read_to_end count"),
                "{what}: read_to_end tells {k} points and gives {} bytes, {} points of {rs} bytes are left",
                rest.len(),
                n - one
            );
        }
        got.extend(rest);
    }
    for _ in 0..2 {
        if r.read_next().is_some() {
            fail!(format!("{what}|after the end"), "{what}: read_next gives something after the last point");
        }
    }
    let mut rest = vec![];
    if e2f(&format!("{what}: read_to_end"), r.read_to_end(&mut rest))? != 0 || !rest.is_empty() {
        fail!(format!("{what}|after the end"), "{what}: read_to_end gives something after the last point");
    }
    expect_points(what, &m.d.spec, &m.d.points[..n * rs], &got)
}

fn clone(f: &LasFile) -> LasFile {
    LasFile {
        bytes: vec![],
        vlrs: f.vlrs.clone(),
        ..*f
    }
}

fn valid(s: &mut Src, info: &mut Info) -> CaseResult {
    let compressed = s.chance(3, 4);
    // an uncompressed file may still carry the VLR
    let with_vlr = compressed || s.chance(1, 4);
    let m = make(s, compressed, with_vlr)?;
    let (d, f) = (&m.d, &m.f);
    info.label(format!("format {}", f.format));
    info.label(format!("LAS 1.{}", f.minor));
    info.label(if compressed { "LAZ" } else { "LAS" });
    info.digest = hash64(&[hash_bytes(&f.bytes)]);
    info.nontrivial = d.n >= 2;
    let raw_format = f.format | if compressed { 0x80 } else { 0 };
    info.desc = format!(
        "LAS 1.{} format {} {} ({}), {} VLRs, points at {}: {}",
        f.minor,
        f.format,
        if compressed { "compressed" } else { "raw" },
        m.how,
        f.num_vlrs,
        f.offset_to_points,
        d.desc()
    );

    match s.draw(3) {
        0 => {
            let mut src = source(s, f.bytes.clone());
            let h = e2f("QuickHeader::read_from", QuickHeader::read_from(&mut src))?;
            check_header("QuickHeader::read_from", &h, f, raw_format)?;
            // the VLRs follow from there
            let v = read_vlrs_and_get_laszip_vlr(&mut src, &h);
            same_vlr("read_vlrs_and_get_laszip_vlr", &v, with_vlr.then_some(&d.spec))?;
            info.checks += 2;
        }
        1 => {
            let mut src = source(s, f.bytes.clone());
            let (h, v) = e2f("read_header_and_vlrs", read_header_and_vlrs(&mut src))?;
            check_header("read_header_and_vlrs", &h, f, raw_format)?;
            same_vlr("read_header_and_vlrs", &v, with_vlr.then_some(&d.spec))?;
            if src.pos != f.offset_to_points as u64 {
                fail!(
                    "read_header_and_vlrs|position",
                    "read_header_and_vlrs leaves the source at {}, points are at {}",
                    src.pos,
                    f.offset_to_points
                );
            }
            // what is returned is what it takes to read the points
            let mut out = vec![0u8; d.points.len()];
            if !compressed {
                e2f("reading raw points", src.read_exact(&mut out))?;
            } else if d.spec.compressor != 1 && s.chance(1, 2) {
                let mut r = e2f("ParLasZipDecompressor::new", ParLasZipDecompressor::new(src, v.unwrap()))?;
                e2f("ParLasZipDecompressor::decompress_many", r.decompress_many(&mut out))?;
            } else {
                let mut r = e2f("LasZipDecompressor::new", LasZipDecompressor::new(src, v.unwrap()))?;
                e2f("LasZipDecompressor::decompress_many", r.decompress_many(&mut out))?;
            }
            expect_points("points after read_header_and_vlrs", &d.spec, &d.points, &out)?;
            info.checks += 3 + d.n as u64;
        }
        _ => {}
    }
    let src = source(s, f.bytes.clone());
    simple(s, if compressed { "LAZ file" } else { "LAS file" }, &m, src, d.n)?;
    info.checks += d.n as u64 + 1;

    if d.n > 0 && s.chance(1, 4) {
        // a header telling fewer points: exactly that many
        let k = s.usize(0, d.n);
        let mut b = f.bytes.clone();
        if f.minor >= 4 {
            b[247..255].copy_from_slice(&(k as u64).to_le_bytes());
        } else {
            b[107..111].copy_from_slice(&(k as u32).to_le_bytes());
        }
        let src = source(s, b);
        simple(s, "file telling fewer points", &m, src, k)?;
        info.checks += k as u64;
    }
    if s.chance(1, 6) {
        more_points(s, &m)?;
    }
    if s.chance(1, 6) {
        far(s, info, compressed, with_vlr)?;
    }
    Ok(())
}

/// A header telling more points than there are, perhaps more than 32 bits can
/// count: those of the file, then an error or whatever bytes follow, not the end.
fn more_points(s: &mut Src, m: &Made) -> CaseResult {
    let (d, f) = (&m.d, &m.f);
    let rs = d.rs();
    let mut b = f.bytes.clone();
    let max = if f.minor >= 4 { u64::MAX } else { u32::MAX as u64 };
    let n = match s.draw(4) {
        0 => d.n as u64 + s.range(1, 100),
        1 => *s.pick(&[1u64 << 16, 1 << 24, 1 << 31, u32::MAX as u64, 1 << 32, 1 << 40, 1 << 48, 1 << 56, u64::MAX]),
        _ => s.u64(),
    };
    let n = n.clamp(d.n as u64, max);
    if f.minor >= 4 {
        b[247..255].copy_from_slice(&n.to_le_bytes());
    } else {
        b[107..111].copy_from_slice(&(n as u32).to_le_bytes());
    }
    let mut r = e2f("telling more points: SimpleReader::new", SimpleReader::new(source(s, b)))?;
    check_header("telling more points", &r.header, &LasFile { n, ..clone(f) }, f.format)?;
    let mut got = vec![];
    for k in 0..(d.n as u64 + 3).min(n) {
        match r.read_next() {
            None => fail!("telling more points|early end", "the end after {k} points of {n}"),
            Some(Ok(p)) if k < d.n as u64 => got.extend_from_slice(p),
            Some(Err(e)) if k < d.n as u64 => {
                fail!("telling more points|error", "point {k} of {} cannot be read when the header tells {n}: {e}", d.n)
            }
            Some(_) => {}
        }
    }
    expect_points("file telling more points", &d.spec, &d.points[..d.n * rs], &got)
}

/// Points far from the header.
fn far(s: &mut Src, info: &mut Info, compressed: bool, with_vlr: bool) -> CaseResult {
    let m = make(s, compressed, with_vlr)?;
    let f = &m.f;
    let head = f.bytes[..f.offset_to_points as usize].to_vec();
    let at = match s.draw(3) {
        0 => *s.pick(&[1u32 << 16, (1 << 24) - 1, 1 << 24, 1 << 31, (1 << 31) - 1, u32::MAX, u32::MAX - 7]),
        _ => s.range(0, u32::MAX as u64) as u32,
    };
    let at = at.max(f.offset_to_points);
    info.label("points far from the header");
    let mut file = Sparse::default();
    file.put(0, &head);
    file.put(96, &at.to_le_bytes());
    if compressed {
        let b = refc::stream(&m.d.spec, &m.d.chunk_slices(), at as u64, &mut Over(None));
        file.put(at as u64, &b);
    } else {
        file.put(at as u64, &m.d.points);
    }
    // (a stream of no points is there all the same)
    file.len = file.len.max(at as u64);
    file.pos = s.u64() % (file.len + 1);
    let m = Made {
        f: LasFile {
            offset_to_points: at,
            ..m.f
        },
        ..m
    };
    let n = m.d.n;
    simple(s, "points far from the header", &m, file, n)?;
    info.checks += n as u64 + 1;
    Ok(())
}

/// Reads everything a file gives; the points of a reader which could be made
/// and whether the end was reached without an error.
fn read_all(s: &mut Src, bytes: Vec<u8>, limit: usize) -> Result<(Vec<u8>, bool), std::io::Error> {
    let mut r = SimpleReader::new(source(s, bytes))?;
    read_rest(&mut r, limit)
}

fn read_rest(r: &mut SimpleReader, limit: usize) -> Result<(Vec<u8>, bool), std::io::Error> {
    let mut got = vec![];
    let mut n = 0;
    loop {
        match r.read_next() {
            Some(Ok(p)) => got.extend_from_slice(p),
            Some(Err(_)) => return Ok((got, false)),
            None => return Ok((got, true)),
        }
        n += 1;
        if n > limit {
            return Ok((got, false));
        }
    }
}

fn defective(s: &mut Src, info: &mut Info) -> CaseResult {
    info.nontrivial = true;
    let kind = s.draw(8);
    let compressed = matches!(kind, 0 | 3 | 4 | 5) || s.chance(3, 4);
    let with_vlr = kind != 0 && (compressed || s.chance(1, 4));
    let m = make(s, compressed, with_vlr)?;
    let (d, f) = (&m.d, &m.f);
    let mut b = f.bytes.clone();
    let at = f.offset_to_points as usize;
    info.digest = hash64(&[hash_bytes(&f.bytes), kind]);
    let rs = d.rs();
    let must_fail = |what: &str, s: &mut Src, b: Vec<u8>| -> CaseResult {
        if SimpleReader::new(source(s, b)).is_ok() {
            fail!(format!("opened|{what}"), "SimpleReader opens a file with {what}");
        }
        Ok(())
    };
    match kind {
        0 => {
            info.label("no laszip VLR");
            info.desc = format!("no laszip VLR, {} others: {}", f.num_vlrs, d.desc());
            must_fail("compressed points but no laszip VLR", s, b.clone())?;
            let mut src = source(s, b);
            let (h, v) = e2f("read_header_and_vlrs", read_header_and_vlrs(&mut src))?;
            check_header("read_header_and_vlrs", &h, f, f.format | 0x80)?;
            same_vlr("read_header_and_vlrs", &v, None)?;
        }
        1 => {
            info.label("truncated header");
            let need = if f.minor >= 4 { 255 } else { 111 };
            let k = s.usize(0, need - 1);
            info.desc = format!("header of LAS 1.{} cut at {k}", f.minor);
            b.truncate(k);
            expect_err(
                "header cut|QuickHeader",
                &format!("QuickHeader::read_from of {k} bytes"),
                QuickHeader::read_from(&mut source(s, b.clone())),
            )?;
            expect_err(
                "header cut|read_header_and_vlrs",
                &format!("read_header_and_vlrs of {k} bytes"),
                read_header_and_vlrs(&mut source(s, b.clone())),
            )?;
            must_fail("a truncated header", s, b)?;
        }
        2 => {
            info.label("truncated VLRs");
            let Some(last) = f.vlrs.last() else {
                return Ok(());
            };
            // cut before the end of the last VLR
            let len = u16::from_le_bytes([b[last + 20], b[last + 21]]) as usize;
            let k = s.usize(f.header_size as usize, last + 54 + len - 1);
            info.desc = format!("{} VLRs cut at {k}: {}", f.num_vlrs, d.desc());
            b.truncate(k);
            expect_err(
                "VLRs cut|read_header_and_vlrs",
                &format!("read_header_and_vlrs of a file cut in its VLRs at {k}"),
                read_header_and_vlrs(&mut source(s, b.clone())),
            )?;
            must_fail("truncated VLRs", s, b.clone())?;
            // this one only looks for the laszip VLR: never a wrong one
            let mut src = source(s, b);
            let h = e2f("QuickHeader::read_from", QuickHeader::read_from(&mut src))?;
            if let v @ Some(_) = read_vlrs_and_get_laszip_vlr(&mut src, &h) {
                same_vlr("read_vlrs_and_get_laszip_vlr", &v, f.has_laszip_vlr.then_some(&d.spec))?;
            }
        }
        3 => {
            info.label("laszip VLR content");
            // a VLR which cannot be: unknown compressor, items, or cut content
            let v = *f
                .vlrs
                .iter()
                .find(|v| b[**v + 2..].starts_with(b"laszip encoded\0") && b[**v + 18..**v + 20] == 22204u16.to_le_bytes())
                .unwrap()
                + 54;
            let what = match s.draw(3) {
                0 => {
                    let c = *s.pick(&[0u16, 4, 9, 0xffff, 0x0102]);
                    b[v..v + 2].copy_from_slice(&c.to_le_bytes());
                    "an unknown compressor"
                }
                1 => {
                    let i = s.draw(d.spec.items.len() as u64) as usize;
                    let p = v + 34 + 6 * i;
                    let c = *s.pick(&[1u16, 5, 15, 0xffff]);
                    b[p..p + 2].copy_from_slice(&c.to_le_bytes());
                    "an unknown item"
                }
                _ => {
                    let i = s.draw(d.spec.items.len() as u64) as usize;
                    let p = v + 34 + 6 * i;
                    let c = *s.pick(&[0u16, 5, 0xffff]);
                    b[p + 4..p + 6].copy_from_slice(&c.to_le_bytes());
                    "an unsupported item version"
                }
            };
            info.desc = format!("{what}: {}", d.desc());
            must_fail(&format!("a laszip VLR with {what}"), s, b)?;
        }
        4 => {
            info.label("size of points");
            // the header and the VLR do not agree
            let mut k = s.range(0, 80) as u16;
            if k == f.point_size {
                k += 1;
            }
            b[105..107].copy_from_slice(&k.to_le_bytes());
            info.desc = format!("point size {k} in the header: {}", d.desc());
            must_fail("points of another size than the laszip VLR tells", s, b)?;
        }
        5 | 6 => {
            info.label("truncated points");
            let k = s.usize(at, b.len());
            b.truncate(k);
            info.desc = format!("cut at {k}, points at {at}: {}", d.desc());
            let mut r = SimpleReader::new(source(s, b.clone()));
            let all = match &mut r {
                Ok(r) => read_rest(r, d.n),
                Err(e) => Err(std::io::Error::new(e.kind(), e.to_string())),
            };
            match all {
                Err(_) if compressed => {}
                Err(e) => fail!("cut points|LAS", "a LAS file cut in its points does not open: {e}"),
                Ok((got, end)) => {
                    let n = got.len() / rs;
                    if n > d.n {
                        fail!("cut points|too many", "{n} points read from a cut file of {}", d.n);
                    }
                    if end && n != d.n {
                        fail!("cut points|silent end", "the end after {n} points of {}", d.n);
                    }
                    expect_points("points of a cut file", &d.spec, &d.points[..n * rs], &got)?;
                    if !end {
                        after_file_error(s, r.as_mut().unwrap(), &d.points, n, rs)?;
                    }
                    if !compressed {
                        let whole = ((k - at) / rs).min(d.n);
                        if n != whole {
                            fail!("cut points|LAS count", "{n} points read of the {whole} a cut LAS file holds");
                        }
                    }
                    // asking for all at once fails likewise
                    let mut r = e2f("SimpleReader::new", SimpleReader::new(source(s, b)))?;
                    let mut all = vec![];
                    match r.read_to_end(&mut all) {
                        Ok(k) if !end || k != n => {
                            fail!("cut points|read_to_end", "read_to_end tells {k} points of a cut file, {n} can be read")
                        }
                        Err(_) if end => fail!("cut points|read_to_end", "read_to_end fails, read_next does not"),
                        _ => {}
                    }
                }
            }
        }
        _ => {
            info.label("header bytes changed");
            for _ in 0..s.usize(1, 4) {
                let p = match s.draw(3) {
                    0 => *s.pick(&[24usize, 25, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 247, 250]),
                    1 => s.usize(0, f.header_size as usize - 1),
                    _ => s.usize(0, at.saturating_sub(1)),
                };
                b[p] = if s.chance(1, 2) { s.draw(256) as u8 } else { b[p] ^ (1 << s.draw(8)) };
            }
            info.desc = format!("header changed: {}", d.desc());
            // anything but a panic
            let _ = QuickHeader::read_from(&mut source(s, b.clone()));
            let _ = read_header_and_vlrs(&mut source(s, b.clone()));
            let n = d.n;
            let _ = read_all(s, b, n);
        }
    }
    info.checks += 1;
    Ok(())
}

// ------------------------------------------------------ files of other tools

const FILES: [&str; 6] = [
    "point10",
    "point-time",
    "point-color",
    "point-time-color",
    "extra-bytes",
    "point-version-1-point-wise",
];

/// Files LASzip wrote come with the repository, compressed and not.
fn reference_files(s: &mut Src, info: &mut Info) -> CaseResult {
    static DATA: OnceLock<Vec<Option<(Vec<u8>, Vec<u8>)>>> = OnceLock::new();
    let all = DATA.get_or_init(|| {
        FILES
            .iter()
            .map(|n| {
                let p = format!("/repo/tests/data/{n}");
                Some((std::fs::read(format!("{p}.las")).ok()?, std::fs::read(format!("{p}.laz")).ok()?))
            })
            .collect()
    });
    let i = s.draw(FILES.len() as u64) as usize;
    let Some((las, laz)) = &all[i] else {
        return Ok(());
    };
    let u16at = |b: &[u8], p: usize| u16::from_le_bytes([b[p], b[p + 1]]);
    let u32at = |b: &[u8], p: usize| u32::from_le_bytes(b[p..p + 4].try_into().unwrap());
    let rs = u16at(las, 105) as usize;
    let n = u32at(las, 107) as usize;
    let at = u32at(las, 96) as usize;
    let want = &las[at..at + n * rs];
    info.label("file of LASzip");
    info.digest = hash64(&[i as u64, s.u64()]);
    info.nontrivial = true;
    info.desc = format!("{} ({n} points)", FILES[i]);
    for (what, b) in [("LAS", las), ("LAZ", laz)] {
        let mut r = e2f("SimpleReader::new", SimpleReader::new(source(s, b.clone())))?;
        let mut got = vec![];
        let one = s.usize(0, n.min(50));
        for _ in 0..one {
            match r.read_next() {
                Some(p) => got.extend_from_slice(e2f("read_next", p)?),
                None => fail!(format!("{}|early end", FILES[i]), "the end before {one} points"),
            }
        }
        let mut rest = vec![];
        let k = e2f("read_to_end", r.read_to_end(&mut rest))?;
        got.extend(rest);
        if k + one != n || got != want {
            fail!(
                format!("{} {what}|points", FILES[i]),
                "{} {what}: {} points read of {n}, {}",
                FILES[i],
                k + one,
                if got == want { "the right bytes" } else { "not the right bytes" }
            );
        }
        if r.header.num_points != n as u64 || r.header.point_size as usize != rs || r.header.point_format_id != las[104] {
            fail!(format!("{} {what}|header", FILES[i]), "{} {what}: {:?}", FILES[i], r.header);
        }
        info.checks += n as u64;
    }
    // and the two decompressors at any place
    let mut src = source(s, laz.clone());
    let (h, v) = e2f("read_header_and_vlrs", read_header_and_vlrs(&mut src))?;
    let Some(v) = v else {
        fail!(format!("{}|no VLR", FILES[i]), "no laszip VLR in {}.laz", FILES[i]);
    };
    let pointwise = laz[104] & 0x80 != 0 && FILES[i].ends_with("point-wise");
    e2f("seek", src.seek(SeekFrom::Start(h.offset_to_points as u64)))?;
    let from = if pointwise { 0 } else { s.usize(0, n - 1) };
    let mut out = vec![0u8; (n - from) * rs];
    if !pointwise && s.chance(1, 2) {
        let mut r = e2f("ParLasZipDecompressor::new", ParLasZipDecompressor::new(src, v))?;
        e2f("seek", r.seek(from as u64))?;
        e2f("decompress_many", r.decompress_many(&mut out))?;
    } else {
        let mut r = e2f("LasZipDecompressor::new", LasZipDecompressor::new(src, v))?;
        if from > 0 {
            e2f("seek", r.seek(from as u64))?;
        }
        e2f("decompress_many", r.decompress_many(&mut out))?;
    }
    if out != want[from * rs..] {
        fail!(format!("{}|seek", FILES[i]), "{}: points from {from} differ", FILES[i]);
    }
    info.checks += 1;
    Ok(())
}
