//! C08 Selective decompression.
use super::util::*;
use super::Prop;
use crate::engine::*;
use crate::refc::{self, Over};
use crate::spec::*;
use laz::laszip::parallel::par_decompress_selective;
use laz::laszip::ChunkTable;
use laz::{DecompressionSelection, LasZipDecompressor, LazDecompressor, ParLasZipDecompressor};
use std::io::Cursor;

pub static PROP: Prop = Prop {
    id: "C08",
    name: "selective decompression",
    f: case,
    quick: 36_000,
    thorough: 800_000,
    rule: "a selection that leaves out at least one field of a layered stream of at least 2 points, or any partial selection of a stream without layers",
    assumptions: &[],
};

const Z: u32 = 1;
const CLASSIFICATION: u32 = 2;
const FLAGS: u32 = 4;
const INTENSITY: u32 = 8;
const SCAN_ANGLE: u32 = 16;
const USER_DATA: u32 = 32;
const SOURCE: u32 = 64;
const GPS: u32 = 128;
const RGB: u32 = 256;
const NIR: u32 = 512;
const WAVE: u32 = 1024;
const EXTRA: u32 = 2048;

/// selection through the methods of the type
fn gen_selection(s: &mut Src) -> Result<(DecompressionSelection, u32), Fail> {
    type D = DecompressionSelection;
    let set: [fn(D) -> D; 12] = [
        D::decompress_z,
        D::decompress_classification,
        D::decompress_flags,
        D::decompress_intensity,
        D::decompress_scan_angle,
        D::decompress_user_data,
        D::decompress_point_source_id,
        D::decompress_gps_time,
        D::decompress_rgb,
        D::decompress_nir,
        D::decompress_wavepacket,
        D::decompress_extra_bytes,
    ];
    let skip: [fn(D) -> D; 12] = [
        D::skip_z,
        D::skip_classification,
        D::skip_flags,
        D::skip_intensity,
        D::skip_scan_angle,
        D::skip_user_data,
        D::skip_point_source_id,
        D::skip_gps_time,
        D::skip_rgb,
        D::skip_nir,
        D::skip_wavepacket,
        D::skip_extra_bytes,
    ];
    let get: [fn(D) -> bool; 12] = [
        D::should_decompress_z,
        D::should_decompress_classification,
        D::should_decompress_flags,
        D::should_decompress_intensity,
        D::should_decompress_scan_angle,
        D::should_decompress_user_data,
        D::should_decompress_point_source_id,
        D::should_decompress_gps_time,
        D::should_decompress_rgb,
        D::should_decompress_nir,
        D::should_decompress_wavepacket,
        D::should_decompress_extra_bytes,
    ];
    let (mut sel, mut want) = match s.draw(4) {
        0 => (D::all(), 0xFFFu32),
        1 => (D::base(), 0),
        2 => (D::xy_returns_channel(), 0),
        _ => {
            let m = s.draw(4096) as u32;
            (DecompressionSelection(m), m)
        }
    };
    for _ in 0..s.usize(0, 8) {
        let i = s.usize(0, 11);
        if s.chance(1, 2) {
            sel = set[i](sel);
            want |= 1 << i;
        } else {
            sel = skip[i](sel);
            want &= !(1 << i);
        }
    }
    for (i, g) in get.iter().enumerate() {
        if g(sel) != (want >> i & 1 == 1) {
            fail!("selection type", "field {i} of selection {:#x} is {}, expected {:#x}", sel.0, g(sel), want);
        }
    }
    Ok((sel, want))
}

/// which bits of the record are decoded
fn mask(spec: &Spec, sel: u32) -> Vec<u8> {
    let f = |b: u32| if sel & b != 0 { 0xFFu8 } else { 0 };
    let mut m = vec![];
    for it in &spec.items {
        match it.kind {
            Kind::Point14 => {
                m.extend([0xFF; 8]);
                m.extend([f(Z); 4]);
                m.extend([f(INTENSITY); 2]);
                m.push(0xFF); // returns
                m.push(0b0011_0000 | (f(FLAGS) & 0b1100_1111));
                m.push(f(CLASSIFICATION));
                m.push(f(USER_DATA));
                m.extend([f(SCAN_ANGLE); 2]);
                m.extend([f(SOURCE); 2]);
                m.extend([f(GPS); 8]);
            }
            Kind::Rgb14 => m.extend([f(RGB); 6]),
            Kind::RgbNir14 => {
                m.extend([f(RGB); 6]);
                m.extend([f(NIR); 2]);
            }
            Kind::Wave14 => m.extend([f(WAVE); 29]),
            Kind::Byte14(n) => m.extend(vec![f(EXTRA); n as usize]),
            // no layers: everything is decoded
            k => m.extend(vec![0xFF; k.size() as usize]),
        }
    }
    m
}

/// the selection bit of each layer of a chunk, in order (0: always decoded)
fn layers(spec: &Spec) -> Vec<u32> {
    let mut v = vec![];
    for it in &spec.items {
        match it.kind {
            Kind::Point14 => v.extend([
                0,
                Z,
                CLASSIFICATION,
                FLAGS,
                INTENSITY,
                SCAN_ANGLE,
                USER_DATA,
                SOURCE,
                GPS,
            ]),
            Kind::Rgb14 => v.push(RGB),
            Kind::RgbNir14 => v.extend([RGB, NIR]),
            Kind::Wave14 => v.push(WAVE),
            Kind::Byte14(n) => v.extend(vec![EXTRA; n as usize]),
            _ => {}
        }
    }
    v
}

fn case(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let threads = gen_threads(s);
    let mut r = Ok(());
    pool(threads).install(|| r = inner(s, info, tier));
    r
}

fn inner(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let mut o = DataOpts {
        small: 90,
        medium: 250,
        large: if tier == Tier::Quick { 800 } else { 5000 },
        giant: 2000,
        ..Default::default()
    };
    if s.chance(7, 8) {
        o.spec.only_layered = true;
    } else {
        o.spec.only_sequential = true;
        o.spec.allow_pointwise = true;
    }
    let d = gen_data(s, &o);
    let (rs, n) = (d.rs(), d.n);
    d.label(info);
    let (sel, bits) = gen_selection(s)?;
    let m = mask(&d.spec, bits);
    info.digest = hash64(&[d.digest(), bits as u64]);
    info.nontrivial = n >= 2 && if d.spec.layered() { m.contains(&0) } else { bits != 0xFFF };
    info.label(match bits.count_ones() {
        0 => "nothing selected",
        1..=3 => "1-3 fields selected",
        4..=8 => "4-8 fields selected",
        9..=11 => "9-11 fields selected",
        _ => "all selected",
    });
    info.desc = format!("selection {bits:#05x} of {}", d.desc());
    // expected points
    let mut want = Vec::with_capacity(d.points.len());
    for c in d.chunk_slices() {
        for p in c.chunks(rs) {
            want.extend(p.iter().zip(&c[..rs]).zip(&m).map(|((v, first), m)| v & m | first & !m));
        }
    }
    let mut over = Over(if s.chance(1, 4) { Some((Rng::new(s.u64()), 20)) } else { None });
    let mut stream = refc::stream(&d.spec, &d.chunk_slices(), 0, &mut over);
    let empty = s.chance(1, 6) && d.spec.variable();
    if empty {
        add_empty_chunks(s, &d.spec, &mut stream, 0, info);
    }
    // layers that are not selected are not read: damage them
    if d.spec.layered() && n > 0 && !empty && s.chance(1, 3) {
        let bit = layers(&d.spec);
        let off = i64::from_le_bytes(stream[..8].try_into().unwrap()) as usize;
        let (t, _) = refc::read_table(d.spec.variable(), d.spec.chunk_size, &stream[off..]).unwrap();
        let mut at = 8;
        let mut f = s.fork();
        for e in &t {
            let mut pos = at + rs + 4 + 4 * bit.len();
            for (k, b) in bit.iter().enumerate() {
                let x = at + rs + 4 + 4 * k;
                let len = u32::from_le_bytes(stream[x..x + 4].try_into().unwrap()) as usize;
                if *b & !bits != 0 {
                    for byte in &mut stream[pos..pos + len] {
                        *byte = f.draw(256) as u8;
                    }
                }
                pos += len;
            }
            at += e.1 as usize;
        }
        info.label("unselected layers damaged");
    }
    let vlr = d.spec.vlr();
    let kind = if d.spec.compressor == 1 { s.draw(2) } else { s.draw(5) };
    info.checks += n as u64;
    let mut got = vec![0x99u8; n * rs];
    let same = |what: &str, want: &[u8], got: &[u8]| -> CaseResult {
        if let Some((item, m)) = diff_points(&d.spec, want, got) {
            let part = if d.spec.layered() {
                let k = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(0) % rs;
                format!("{item} byte {}", if k < 30 { k } else { 30 })
            } else {
                item
            };
            fail!(
                format!("selective|{what}|{part}"),
                "{what}: selection {bits:#05x}: {m} ({})",
                d.desc()
            );
        }
        Ok(())
    };
    match kind {
        0 | 1 => {
            info.label("sequential");
            let mut x = e2f(
                "LasZipDecompressor::selective",
                LasZipDecompressor::selective(Cursor::new(&stream[..]), vlr, sel),
            )?;
            let mut at = 0;
            for g in gen_groups(s, n, true) {
                let b = &mut got[at * rs..(at + g) * rs];
                at += g;
                match s.draw(3) {
                    0 => e2f("decompress_many", x.decompress_many(b))?,
                    1 => {
                        for p in b.chunks_mut(rs) {
                            e2f("decompress_one", x.decompress_one(p))?
                        }
                    }
                    _ => e2f("LazDecompressor", LazDecompressor::decompress_many(&mut x, b))?,
                }
            }
            same("sequential", &want, &got)
        }
        2 => {
            info.label("parallel");
            let mut x = e2f(
                "ParLasZipDecompressor::selective",
                ParLasZipDecompressor::selective(Cursor::new(&stream[..]), vlr, sel),
            )?;
            let mut at = 0;
            for g in gen_groups(s, n, true) {
                e2f("par decompress_many", x.decompress_many(&mut got[at * rs..(at + g) * rs]))?;
                at += g;
            }
            same("parallel", &want, &got)
        }
        3 => {
            info.label("par_decompress_selective");
            let t = e2f("table", ChunkTable::read_from(Cursor::new(&stream[..]), &vlr))?;
            let len: u64 = t.as_ref().iter().map(|e| e.byte_count).sum();
            e2f(
                "par_decompress_selective",
                par_decompress_selective(&stream[8..8 + len as usize], &mut got, &vlr, t.as_ref(), sel),
            )?;
            same("par_decompress_selective", &want, &got)
        }
        _ => {
            info.label("seeks");
            if n == 0 {
                return Ok(());
            }
            let steps = s.usize(1, 6);
            let par = s.chance(1, 2);
            let mut log = vec![];
            let src = Cursor::new(&stream[..]);
            let mut seq = None;
            let mut prl = None;
            if par {
                prl = Some(e2f("selective", ParLasZipDecompressor::selective(src, vlr, sel))?);
            } else {
                seq = Some(e2f("selective", LasZipDecompressor::selective(src, vlr, sel))?);
            }
            let mut pos = 0;
            for _ in 0..steps {
                if s.chance(3, 4) {
                    pos = s.usize(0, n - 1);
                    log.push(format!("seek {pos}"));
                    match (&mut seq, &mut prl) {
                        (Some(x), _) => e2f("seek", x.seek(pos as u64))?,
                        (_, Some(x)) => e2f("par seek", x.seek(pos as u64))?,
                        _ => {}
                    }
                }
                let k = s.usize(0, (n - pos).min(60));
                log.push(format!("read {k}"));
                let b = &mut got[pos * rs..(pos + k) * rs];
                match (&mut seq, &mut prl) {
                    (Some(x), _) => e2f("read", x.decompress_many(b))?,
                    (_, Some(x)) => e2f("par read", x.decompress_many(b))?,
                    _ => {}
                }
                same(
                    if par { "parallel after seek" } else { "sequential after seek" },
                    &want[pos * rs..(pos + k) * rs],
                    b,
                )
                .map_err(|e| Fail::new(e.sig, format!("{} ({})", e.msg, log.join(", "))))?;
                pos += k;
            }
            Ok(())
        }
    }
}
