//! C09 VLR content and layout derivation.
use super::util::*;
use super::Prop;
use crate::engine::*;
use crate::gen::Gen;
use crate::io::{Disk, Plan};
use crate::mutate::WEIRD32;
use crate::refc::{self, Over};
use crate::spec::*;
use laz::laszip::{LazCompressorWithInner, LasZipDecompressor};
use laz::{
    LasZipAppender, LasZipCompressor, LasZipError, LazItem, LazItemRecordBuilder, LazItemType, LazVlr, LazVlrBuilder,
    ParLasZipAppender, ParLasZipCompressor, ParLasZipDecompressor,
};
use std::io::Cursor;

pub static PROP: Prop = Prop {
    id: "C09",
    name: "VLR content and layout derivation",
    f: case,
    quick: 250_000,
    thorough: 6_000_000,
    rule: "a VLR with at least 2 items, or one that must be rejected",
    assumptions: &["from_laz_items panics on an empty or unknown item list, as documented; builders are given valid ones"],
};

fn case(s: &mut Src, info: &mut Info, _tier: Tier) -> CaseResult {
    match s.weighted(&[6, 4, 2, 1]) {
        0 => bytes(s, info),
        1 => builders(s, info),
        2 => {
            let mut r = Ok(());
            pool(1).install(|| r = unsupported(s, info));
            r
        }
        _ => built_stream(s, info),
    }
}

fn item_type(k: Kind) -> LazItemType {
    match k {
        Kind::Byte(n) => LazItemType::Byte(n),
        Kind::Point10 => LazItemType::Point10,
        Kind::Gps => LazItemType::GpsTime,
        Kind::Rgb12 => LazItemType::RGB12,
        Kind::Wave13 => LazItemType::WavePacket13,
        Kind::Point14 => LazItemType::Point14,
        Kind::Rgb14 => LazItemType::RGB14,
        Kind::RgbNir14 => LazItemType::RGBNIR14,
        Kind::Wave14 => LazItemType::WavePacket14,
        Kind::Byte14(n) => LazItemType::Byte14(n),
    }
}

fn any_kind(s: &mut Src) -> Kind {
    let n = match s.draw(4) {
        0 => s.draw(4) as u16,
        1 => s.draw(100) as u16,
        2 => s.draw(65536) as u16,
        _ => *s.pick(&[0u16, 1, 255, 256, 0x7FFF, 0x8000, 0xFFFF]),
    };
    *s.pick(&[
        Kind::Point10,
        Kind::Gps,
        Kind::Rgb12,
        Kind::Wave13,
        Kind::Point14,
        Kind::Rgb14,
        Kind::RgbNir14,
        Kind::Wave14,
        Kind::Byte(n),
        Kind::Byte14(n),
    ])
}

fn any32(s: &mut Src) -> u32 {
    match s.draw(3) {
        0 => *s.pick(WEIRD32),
        1 => s.draw(100_000) as u32,
        _ => s.u64() as u32,
    }
}

fn any64(s: &mut Src) -> i64 {
    match s.draw(3) {
        0 => -1,
        1 => s.draw(1000) as i64,
        _ => s.u64() as i64,
    }
}

fn same_items(what: &str, want: &[Item], got: &[LazItem], info: &mut Info) -> CaseResult {
    info.checks += want.len() as u64 + 1;
    let g: Vec<(LazItemType, u16, u16)> = got.iter().map(|i| (i.item_type(), i.size(), i.version())).collect();
    let w: Vec<(LazItemType, u16, u16)> = want.iter().map(|i| (item_type(i.kind), i.kind.size(), i.version)).collect();
    if g != w {
        fail!(format!("items|{what}"), "{what}: the items are {g:?}, expected {w:?}");
    }
    Ok(())
}

/// any VLR content, read and written
fn bytes(s: &mut Src, info: &mut Info) -> CaseResult {
    info.label("content");
    let n = match s.weighted(&[6, 2, 1]) {
        0 => s.usize(1, 5),
        1 => s.usize(0, 40),
        _ => s.usize(0, 300),
    };
    let mut items: Vec<Item> = (0..n)
        .map(|_| Item {
            kind: any_kind(s),
            version: match s.draw(3) {
                0 => 1 + s.draw(4) as u16,
                1 => s.draw(8) as u16,
                _ => s.draw(65536) as u16,
            },
        })
        .collect();
    let compressor = match s.weighted(&[6, 2, 2]) {
        0 => 2 + s.draw(2) as u16,
        1 => s.draw(2) as u16,
        _ => match s.draw(2) {
            0 => 4 + s.draw(4) as u16,
            _ => s.draw(65536) as u16,
        },
    };
    let chunk_size = match s.draw(3) {
        0 => any32(s),
        1 => 0,
        _ => VARIABLE,
    };
    let coder = if s.chance(1, 3) { s.draw(65536) as u16 } else { 0 };
    let (major, minor, revision) = match s.draw(2) {
        0 => (2, 2, 0),
        _ => (s.draw(256) as u8, s.draw(256) as u8, s.draw(65536) as u16),
    };
    let options = if s.chance(1, 2) { any32(s) } else { 0 };
    let (e1, e2) = (any64(s), any64(s));
    if s.chance(1, 8) {
        // nothing described
        for it in &mut items {
            it.kind = if s.chance(1, 2) { Kind::Byte(0) } else { Kind::Byte14(0) };
        }
    }
    let mut v = vec![];
    v.extend(compressor.to_le_bytes());
    v.extend(coder.to_le_bytes());
    v.push(major);
    v.push(minor);
    v.extend(revision.to_le_bytes());
    v.extend(options.to_le_bytes());
    v.extend(chunk_size.to_le_bytes());
    v.extend(e1.to_le_bytes());
    v.extend(e2.to_le_bytes());
    v.extend((n as u16).to_le_bytes());
    for it in &items {
        v.extend(it.kind.code().to_le_bytes());
        v.extend(it.kind.size().to_le_bytes());
        v.extend(it.version.to_le_bytes());
    }
    // defects
    let mut unknown_item = None;
    let mut bad_size = false;
    if n > 0 && s.chance(1, 5) {
        let k = s.usize(0, n - 1);
        let at = 34 + 6 * k;
        if s.chance(1, 2) {
            let code = match s.draw(3) {
                0 => 1 + s.draw(5) as u16,
                1 => 15 + s.draw(10) as u16,
                _ => 15 + s.draw(65536 - 15) as u16,
            };
            v[at..at + 2].copy_from_slice(&code.to_le_bytes());
            unknown_item = Some(code);
        } else if !matches!(items[k].kind, Kind::Byte(_) | Kind::Byte14(_)) {
            let size = items[k].kind.size().wrapping_add(1 + s.draw(65535) as u16);
            v[at + 2..at + 4].copy_from_slice(&size.to_le_bytes());
            bad_size = true;
        }
    }
    let total: u64 = items.iter().map(|i| i.kind.size() as u64).sum();
    info.digest = hash_bytes(&v);
    info.desc = format!("compressor {compressor} chunk size {chunk_size} items {items:?}");
    let len = v.len();
    let tail = s.usize(0, 5);
    let mut f = s.fork();
    let mut file = v.clone();
    file.extend(f.bytes(tail));
    let way = s.draw(3);
    let r = match way {
        0 => LazVlr::from_buffer(&file),
        1 => LazVlr::read_from(&file[..]),
        _ => {
            let mut disk = Disk::with(
                file.clone(),
                Plan {
                    jitter: Some(Rng::new(s.u64())),
                    interrupt: 20,
                    max_io: 7,
                    ..Default::default()
                },
            );
            let r = LazVlr::read_from(&mut disk);
            if r.is_ok() && disk.pos != len as u64 {
                fail!("read length", "reading a VLR of {len} bytes consumed {}", disk.pos);
            }
            r
        }
    };
    info.checks += 1;
    // errors
    if compressor > 3 {
        info.nontrivial = true;
        info.label("unknown compressor");
        return match r {
            Err(LasZipError::UnknownCompressorType(c)) if c == compressor => Ok(()),
            Err(e) => fail!("unknown compressor|other error", "compressor {compressor}: error {e}"),
            Ok(_) => fail!("unknown compressor|accepted", "compressor {compressor} accepted"),
        };
    }
    if let Some(code) = unknown_item {
        info.nontrivial = true;
        info.label("unknown item");
        return match r {
            Err(LasZipError::UnknownLazItem(c)) if c == code => Ok(()),
            Err(e) => fail!("unknown item|other error", "item {code}: error {e}"),
            Ok(_) => fail!("unknown item|accepted", "item {code} accepted ({})", info.desc),
        };
    }
    if bad_size || total == 0 {
        info.nontrivial = true;
        info.label(if bad_size { "wrong item size" } else { "empty record" });
        return expect_err("inconsistent vlr accepted", &info.desc.clone(), r);
    }
    // content
    let vlr = e2f("reading a valid VLR", r)?;
    info.nontrivial = n >= 2;
    let cs = if chunk_size == 0 { VARIABLE } else { chunk_size };
    if vlr.chunk_size() != cs || vlr.uses_variable_size_chunks() != (cs == VARIABLE) {
        fail!(
            "chunk size",
            "chunk size field {chunk_size}: chunk_size() {} variable {}",
            vlr.chunk_size(),
            vlr.uses_variable_size_chunks()
        );
    }
    same_items("read", &items, vlr.items(), info)?;
    if vlr.items_size() != total {
        fail!("items_size", "items_size() is {} for items of {total} bytes in total ({})", vlr.items_size(), info.desc);
    }
    let mut out = vec![];
    e2f("write_to", vlr.write_to(&mut out))?;
    let mut want = v.clone();
    want[12..16].copy_from_slice(&cs.to_le_bytes());
    info.checks += 2;
    if out != want {
        let k = out.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(out.len().min(want.len()));
        fail!("bytes written", "reading and writing a VLR changes byte {k}: {} became {}", hex(&v), hex(&out));
    }
    let again = e2f("reading what was written", LazVlr::from_buffer(&out))?;
    if again != vlr {
        fail!("read back differs", "{again:?} read back for {vlr:?}");
    }
    // every truncation is an error
    let cuts: Vec<usize> = if len < 80 {
        (0..len).collect()
    } else {
        (0..6).map(|_| s.usize(0, len - 1)).collect()
    };
    for c in cuts {
        info.checks += 1;
        if LazVlr::from_buffer(&v[..c]).is_ok() {
            fail!("truncated vlr accepted", "{c} of {len} bytes are read without error ({})", info.desc);
        }
    }
    Ok(())
}

/// the items LASzip gives the format (there is no version 2 of wave packets)
fn laszip_items(id: u8, version: u16, extra: u16) -> Vec<Item> {
    let mut v = format_items(id, version, extra);
    for i in &mut v {
        if i.kind == Kind::Wave13 {
            i.version = 1;
        }
    }
    v
}

fn typed(id: u8, version: u16, extra: u16) -> Vec<LazItem> {
    use laz::las::*;
    type B = LazItemRecordBuilder;
    macro_rules! old {
        ($p:ty) => {
            match version {
                0 => B::default_version_of::<$p>(extra),
                1 => B::version_1_of::<$p>(extra),
                _ => B::version_2_of::<$p>(extra),
            }
        };
    }
    macro_rules! new {
        ($p:ty) => {
            match version {
                0 => B::default_version_of::<$p>(extra),
                3 => B::version_3_of::<$p>(extra),
                _ => B::version_4_of::<$p>(extra),
            }
        };
    }
    match id {
        0 => old!(Point0),
        1 => old!(Point1),
        2 => old!(Point2),
        3 => old!(Point3),
        4 => old!(Point4),
        5 => old!(Point5),
        6 => new!(Point6),
        7 => new!(Point7),
        8 => new!(Point8),
        9 => new!(Point9),
        _ => new!(Point10),
    }
}

fn gen_extra(s: &mut Src) -> u16 {
    match s.draw(4) {
        0 => 0,
        1 => 1 + s.draw(8) as u16,
        2 => s.draw(65536) as u16,
        _ => *s.pick(&[255u16, 256, 0x7FFF, 0x8000, 0xFFFF]),
    }
}

fn builders(s: &mut Src, info: &mut Info) -> CaseResult {
    info.label("builders");
    let extra = gen_extra(s);
    let how = s.draw(3);
    let (want, got, what) = match how {
        0 => {
            let id = if s.chance(1, 4) { s.draw(256) } else { s.draw(12) } as u8;
            info.desc = format!("format {id} with {extra} extra bytes");
            let r = LazItemRecordBuilder::default_for_point_format_id(id, extra);
            if id > 10 {
                info.nontrivial = true;
                info.digest = hash64(&[1, id as u64, extra as u64]);
                info.label("unknown format");
                let r2 = LazVlrBuilder::default().with_point_format(id, extra).map(|_| ());
                for r in [r.map(|_| ()), r2] {
                    info.checks += 1;
                    match r {
                        Err(LasZipError::UnsupportedPointFormat(i)) if i == id => {}
                        Err(e) => fail!("unknown format|other error", "format {id}: error {e}"),
                        Ok(()) => fail!("unknown format|accepted", "format {id} accepted"),
                    }
                }
                return Ok(());
            }
            (
                laszip_items(id, if id < 6 { 2 } else { 3 }, extra),
                e2f("default_for_point_format_id", r)?,
                "default_for_point_format_id",
            )
        }
        1 => {
            let id = s.draw(11) as u8;
            let v = s.draw(3) as u16;
            let (v, version) = if id < 6 {
                (v, if v == 0 { 2 } else { v })
            } else if v == 0 {
                (0, 3)
            } else {
                (v + 2, v + 2)
            };
            info.desc = format!("version {v} of format {id} with {extra} extra bytes");
            (laszip_items(id, version, extra), typed(id, v, extra), "version_N_of")
        }
        _ => {
            let layered = s.chance(1, 2);
            let n = s.usize(1, 6);
            let mut b = LazItemRecordBuilder::new();
            let mut want = vec![];
            for _ in 0..n {
                let k = loop {
                    let k = any_kind(s);
                    if k.layered() == layered {
                        break k;
                    }
                    if s.chance(1, 50) {
                        break if layered { Kind::Point14 } else { Kind::Point10 };
                    }
                };
                b.add_item(item_type(k));
                want.push(Item {
                    kind: k,
                    version: if layered {
                        3
                    } else if k == Kind::Wave13 {
                        1
                    } else {
                        2
                    },
                });
            }
            info.desc = format!("LazItemRecordBuilder {want:?}");
            let a = b.build();
            if a != b.build() {
                fail!("build twice", "building twice gives different items");
            }
            (want, a, "LazItemRecordBuilder")
        }
    };
    info.nontrivial = want.len() >= 2;
    same_items(what, &want, &got, info)?;
    // the VLR
    let mut chunk = 50_000u32;
    #[allow(deprecated)]
    let mut b = match s.draw(4) {
        3 => LazVlrBuilder::from_laz_items(got.clone()),
        0 => LazVlrBuilder::new(got.clone()),
        1 => LazVlrBuilder::default().with_laz_items(got.clone()),
        _ => LazVlrBuilder::new(typed(0, 1, 3)).with_laz_items(got.clone()),
    };
    let mut direct = false;
    match s.draw(4) {
        0 => direct = true,
        1 => {
            chunk = any32(s).max(1);
            b = b.with_variable_chunk_size();
            #[allow(deprecated)]
            {
                b = if s.chance(1, 4) { b.with_chunk_size(chunk) } else { b.with_fixed_chunk_size(chunk) };
            }
        }
        2 => {
            chunk = VARIABLE;
            b = b.with_fixed_chunk_size(77).with_variable_chunk_size();
        }
        _ => {}
    }
    let vlr = if direct { LazVlr::from_laz_items(got.clone()) } else { b.build() };
    let spec = Spec {
        compressor: if want[0].version <= 2 { 2 } else { 3 },
        chunk_size: chunk,
        items: want,
    };
    info.desc += &format!(", chunk {chunk}");
    check_built(&vlr, &spec, info)?;
    if LazVlr::USER_ID != "laszip encoded" || LazVlr::RECORD_ID != 22204 {
        fail!("vlr identification", "{} {}", LazVlr::USER_ID, LazVlr::RECORD_ID);
    }
    Ok(())
}

fn check_built(vlr: &LazVlr, spec: &Spec, info: &mut Info) -> CaseResult {
    let mut out = vec![];
    e2f("write_to", vlr.write_to(&mut out))?;
    let want = spec.vlr_bytes();
    info.digest = hash_bytes(&want);
    info.checks += 4;
    if out != want {
        let k = out.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(out.len().min(want.len()));
        fail!("built vlr", "byte {k} of the VLR built for {} differs: {}, expected {}", info.desc, hex(&out), hex(&want));
    }
    if vlr.items_size() != spec.items.iter().map(|i| i.kind.size() as u64).sum::<u64>() {
        fail!("items_size", "items_size() is {} ({})", vlr.items_size(), info.desc);
    }
    if vlr.chunk_size() != spec.chunk_size || vlr.uses_variable_size_chunks() != spec.variable() {
        fail!("chunk size", "chunk_size() {} ({})", vlr.chunk_size(), info.desc);
    }
    if vlr.items_size() > 0 && &e2f("reading a built VLR", LazVlr::from_buffer(&out))? != vlr {
        fail!("read back differs", "({})", info.desc);
    }
    Ok(())
}

/// a VLR from the builders drives compression and decompression of the format
fn built_stream(s: &mut Src, info: &mut Info) -> CaseResult {
    info.label("stream of a built vlr");
    let id = s.draw(11) as u8;
    let extra = if s.chance(1, 2) { 0 } else { s.draw(40) as u16 };
    let mut b = e2f("with_point_format", LazVlrBuilder::default().with_point_format(id, extra))?;
    let version = if id < 6 { 2 } else { 3 };
    let mut spec = Spec {
        compressor: version,
        chunk_size: 50_000,
        items: laszip_items(id, version, extra),
    };
    if s.chance(2, 3) {
        spec.chunk_size = s.range(1, 20) as u32;
        b = b.with_fixed_chunk_size(spec.chunk_size);
    }
    info.desc = format!("format {id}, {extra} extra bytes, chunk size {}", spec.chunk_size);
    let vlr = b.build();
    check_built(&vlr, &spec, info)?;
    let n = s.usize(1, 60);
    let points = Gen::new(&spec).points(s, n);
    let rs = spec.record_size();
    let default = spec.chunk_size == 50_000;
    let before = s.usize(0, 30);
    let mut out = Cursor::new(vec![0x5Au8; before]);
    out.set_position(before as u64);
    // the accessors show the VLR and the destination as they are
    let which = s.draw(4);
    fn typed<C: LazCompressorWithInner<Cursor<Vec<u8>>>>(mut c: C, points: &[u8], before: usize) -> Result<Cursor<Vec<u8>>, Fail> {
        e2f("reserve_offset_to_chunk_table", c.reserve_offset_to_chunk_table())?;
        if c.inner().get_ref().len() < before || c.inner().get_ref()[..before] != vec![0x5A; before][..] || c.inner_mut().get_ref().len() < before {
            fail!("accessor|inner", "inner() does not show the destination");
        }
        e2f("LazCompressor::compress_many", c.compress_many(points))?;
        e2f("LazCompressor::done", c.done())?;
        let k = c.inner().position();
        if k != c.inner().get_ref().len() as u64 || c.inner_mut().position() != k {
            fail!("accessor|inner", "inner() is at {k} after done(), of {} bytes", c.inner().get_ref().len());
        }
        Ok(c.into_inner())
    }
    let out = match which {
        0 | 1 => {
            let mut c = if default && which == 1 {
                e2f("LasZipCompressor::from_laz_items", LasZipCompressor::from_laz_items(out, vlr.items().clone()))?
            } else {
                e2f("LasZipCompressor::new", LasZipCompressor::new(out, vlr.clone()))?
            };
            if c.vlr() != &vlr {
                fail!("accessor|vlr", "LasZipCompressor::vlr() is not the VLR given ({})", info.desc);
            }
            e2f("compress_many", c.compress_many(&points))?;
            e2f("done", c.done())?;
            let (k, len) = (c.get().position(), c.get_mut().get_ref().len());
            if k != len as u64 {
                fail!("accessor|get", "get() is at {k} after done(), of {len} bytes");
            }
            c.into_inner()
        }
        2 => typed(e2f("LasZipCompressor::new", LasZipCompressor::new(out, vlr.clone()))?, &points, before)?,
        _ => {
            let c = e2f("ParLasZipCompressor::new", ParLasZipCompressor::new(out, vlr.clone()))?;
            if c.vlr() != &vlr {
                fail!("accessor|vlr", "ParLasZipCompressor::vlr() is not the VLR given ({})", info.desc);
            }
            if c.get().position() != before as u64 {
                fail!("accessor|get", "ParLasZipCompressor::get() is not where the destination was");
            }
            typed(c, &points, before)?
        }
    };
    let mut out = out.into_inner();
    let head = out.drain(..before).collect::<Vec<u8>>();
    if head != vec![0x5A; before] {
        fail!("accessor|before", "the bytes before the stream changed");
    }
    let slices: Vec<&[u8]> = points.chunks(rs * spec.chunk_size as usize).collect();
    let want = refc::stream(&spec, &slices, before as u64, &mut Over(None));
    info.digest = hash64(&[info.digest, hash_bytes(&points)]);
    info.nontrivial = true;
    info.checks += 2;
    if out != want {
        fail!("stream of a built vlr", "the stream differs from the reference ({})", info.desc);
    }
    let mut back = vec![0u8; points.len()];
    let mut src = Cursor::new(vec![0x5Au8; before]);
    src.get_mut().extend(out);
    src.set_position(before as u64);
    if s.chance(1, 2) {
        let mut x = e2f("LasZipDecompressor::new", LasZipDecompressor::new(src, vlr.clone()))?;
        if x.vlr() != &vlr {
            fail!("accessor|vlr", "LasZipDecompressor::vlr() is not the VLR given ({})", info.desc);
        }
        let k = x.get().position();
        if x.get_mut().position() != k || k > x.get().get_ref().len() as u64 {
            fail!("accessor|get", "LasZipDecompressor::get() is at {k}");
        }
        e2f("decompress_many", x.decompress_many(&mut back))?;
        if x.into_inner().get_ref().len() <= before {
            fail!("accessor|get", "LasZipDecompressor does not give its source back");
        }
    } else {
        let mut x = e2f("ParLasZipDecompressor::new", ParLasZipDecompressor::new(src, vlr))?;
        e2f("par decompress_many", x.decompress_many(&mut back))?;
        if x.get().position() != x.get_mut().position() || x.into_inner().get_ref().len() <= before {
            fail!("accessor|get", "ParLasZipDecompressor does not give its source back");
        }
    }
    expect_points("stream of a built vlr", &spec, &points, &back)
}

/// supported layouts only
fn unsupported(s: &mut Src, info: &mut Info) -> CaseResult {
    info.nontrivial = true;
    let good = gen_spec(
        s,
        SpecOpts {
            max_chunk: 10,
            free_items: false,
            ..Default::default()
        },
    );
    let n = s.usize(1, 12);
    let points = Gen::new(&good).points(s, n);
    let rs = good.record_size();
    let slices: Vec<&[u8]> = if good.variable() {
        vec![&points]
    } else {
        points.chunks(rs * good.chunk_size as usize).collect()
    };
    let stream = refc::stream(&good, &slices, 0, &mut Over(None));
    let mut bad = good.clone();
    let what = s.draw(3);
    let mut want_version = None;
    let mut want_compressor = None;
    match what {
        0 => {
            bad.compressor = s.draw(2) as u16;
            want_compressor = Some(bad.compressor);
            info.label(format!("compressor {}", bad.compressor));
        }
        1 => {
            let k = s.usize(0, bad.items.len() - 1);
            let v = match s.draw(3) {
                0 => 0,
                1 => 5 + s.draw(4) as u16,
                _ => 5 + s.draw(65531) as u16,
            };
            bad.items[k].version = v;
            want_version = Some((item_type(bad.items[k].kind), v));
            info.label("unknown item version");
        }
        _ => {
            // a version that exists, but not for this item
            let k = s.usize(0, bad.items.len() - 1);
            let v = (if good.layered() { 1 } else { 3 }) + s.draw(2) as u16;
            if k == 0 {
                // the other items may be read as the wrong kind: all change
                for it in &mut bad.items {
                    it.version = v;
                }
            } else {
                bad.items[k].version = v;
            }
            want_version = Some((item_type(bad.items[k].kind), v));
            info.label("version of the other generation");
        }
    }
    info.desc = format!("{} in place of {}", bad.desc(), good.desc());
    info.digest = hash64(&[hash_bytes(&bad.vlr_bytes()), n as u64]);
    let vlr = match LazVlr::from_buffer(bad.vlr_bytes()) {
        Ok(v) => v,
        // may be rejected as soon as it is read
        Err(_) if what != 0 => return Ok(()),
        Err(e) => fail!("compressor rejected by from_buffer", "{e} ({})", info.desc),
    };
    let check = |who: &str, exact: bool, r: Result<(), LasZipError>| -> CaseResult {
        match r {
            Ok(()) => fail!(
                format!("unsupported accepted|{who}"),
                "{who} accepts {} ({what})",
                bad.desc()
            ),
            Err(e) if exact => {
                let ok = match (&e, want_compressor, want_version) {
                    (LasZipError::UnsupportedCompressorType(c), Some(w), _) => *c as u16 == w,
                    (LasZipError::UnsupportedLazItemVersion(t, v), _, Some(w)) => (*t, *v) == w,
                    _ => false,
                };
                // and the message tells which
                let ok = ok
                    && match &e {
                        LasZipError::UnsupportedLazItemVersion(_, v) => e.to_string().contains(&v.to_string()),
                        LasZipError::UnsupportedCompressorType(c) => e.to_string().contains(&format!("{c:?}")),
                        _ => true,
                    };
                if !ok {
                    fail!(format!("unsupported|other error|{who}"), "{who}: error {e} for {}", bad.desc());
                }
                Ok(())
            }
            Err(_) => Ok(()),
        }
    };
    info.checks += 8;
    let pointwise = bad.compressor == 1;
    // decompressors
    let r = LasZipDecompressor::new(Cursor::new(&stream[..]), vlr.clone());
    if pointwise {
        // supported by the sequential decompressor (whose items are valid)
        e2f("LasZipDecompressor with compressor 1", r.map(|_| ()))?;
    } else {
        check("LasZipDecompressor", true, r.map(|_| ()))?;
        let mut out = vec![0u8; points.len()];
        check(
            "decompress_buffer",
            true,
            laz::decompress_buffer(&stream, &mut out, vlr.clone()),
        )?;
    }
    let mut out = vec![0u8; points.len()];
    let is_c = want_compressor.is_some();
    check(
        "ParLasZipDecompressor",
        is_c,
        ParLasZipDecompressor::new(Cursor::new(&stream[..]), vlr.clone()).and_then(|mut d| d.decompress_many(&mut out)),
    )?;
    if is_c || s.chance(1, 2) {
        check(
            "par_decompress_buffer",
            false,
            laz::par_decompress_buffer(&stream, &mut out, &vlr).map(|_| ()),
        )?;
    }
    // compressors
    let mut dst = Cursor::new(vec![]);
    check(
        "LasZipCompressor",
        true,
        LasZipCompressor::new(&mut dst, vlr.clone()).map(|_| ()),
    )?;
    if !good.variable() {
        let mut dst = Cursor::new(vec![]);
        check(
            "compress_buffer",
            true,
            laz::compress_buffer(&mut dst, &points, vlr.clone()),
        )?;
        let mut dst = Cursor::new(vec![]);
        check(
            "par_compress_buffer",
            false,
            laz::par_compress_buffer(&mut dst, &points, &vlr),
        )?;
    }
    let mut dst = Cursor::new(vec![]);
    check(
        "ParLasZipCompressor",
        is_c,
        ParLasZipCompressor::new(&mut dst, vlr.clone()).and_then(|mut c| {
            if good.variable() {
                c.compress_chunks([&points])?;
            } else {
                c.compress_many(&points)?;
            }
            Ok(c.done()?)
        }),
    )?;
    // appenders
    let r = LasZipAppender::new(Cursor::new(stream.clone()), vlr.clone(), n as u64);
    check("LasZipAppender", true, r.map(|_| ()))?;
    let r = ParLasZipAppender::new(Cursor::new(stream.clone()), vlr.clone(), n as u64);
    check(
        "ParLasZipAppender",
        is_c,
        r.and_then(|mut a| {
            if good.variable() {
                a.compress_chunks([&points])?;
            } else {
                a.compress_many(&points)?;
            }
            a.done()
        }),
    )
}
