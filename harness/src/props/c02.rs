//! C02 Compatibility with the LASzip format: differential against the
//! independent reference codec.
use super::util::*;
use super::Prop;
use crate::engine::*;
use crate::refc::{self, Over};
use crate::spec::*;
use std::io::Cursor;

pub static PROP: Prop = Prop {
    id: "C02",
    name: "LASzip format compatibility",
    f: case,
    quick: 30_000,
    thorough: 600_000,
    rule: "a generated stream of at least 2 points with at least one change, compared chunk by chunk with the reference encoder's bytes and (canonical, over-coded and point-wise reference streams) decoded",
    assumptions: &[
        "the reference codec in harness/src/refc.rs states the LASzip format (written from the LASzip algorithms; cross checked on the LASzip-written files of /repo/tests/data by C17)",
        "gps times are compared by bits when deciding whether they changed (LASzip compares doubles; both choices are valid streams)",
    ],
};

pub fn over(s: &mut Src) -> Over {
    let p = *s.pick(&[10u64, 2, 50]);
    Over(Some((Rng::new(s.u64()), p)))
}

fn case(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let o = DataOpts {
        min_points: 1,
        giant: 500,
        large: if tier == Tier::Quick { 2500 } else { 20000 },
        spec: SpecOpts {
            max_chunk: 3000,
            allow_pointwise: true,
            ..Default::default()
        },
        ..Default::default()
    };
    let d = gen_data(s, &o);
    d.label(info);
    info.desc = d.desc();
    info.nontrivial = d.n >= 2 && d.changes() > 0;
    info.digest = d.digest();
    let chunks = d.chunk_slices();

    // what laz writes is what the format defines
    if d.spec.compressor != 1 {
        let bytes = compress_seq(&d)?;
        let want = refc::stream(&d.spec, &chunks, 0, &mut Over(None));
        info.checks += d.n as u64;
        if bytes != want {
            let mut at = 8;
            for (i, c) in chunks.iter().enumerate() {
                let w = refc::chunk(&d.spec, c, &mut Over(None));
                let g = bytes.get(at..at + w.len()).unwrap_or(&[]);
                if g != &w[..] {
                    let k = w.iter().zip(g).position(|(a, b)| a != b).unwrap_or(g.len());
                    fail!(
                        format!("chunk bytes differ from the LASzip format|{}", kinds(&d.spec)),
                        "chunk {i} ({} points) differs from the reference encoding at byte {k} of {}{} ({})",
                        d.chunks[i],
                        w.len(),
                        layer_of(&d.spec, &w, k),
                        d.desc()
                    );
                }
                at += w.len();
            }
            fail!(
                "offset field or chunk table differ from the LASzip format",
                "stream of {} bytes differs from the reference stream of {} bytes outside its chunks ({})",
                bytes.len(),
                want.len(),
                d.desc()
            );
        }
    }

    // what a conforming writer produces is read
    let canonical = s.chance(1, 3) || d.spec.compressor == 1;
    let mut ov = if canonical { Over(None) } else { over(s) };
    let stream = refc::stream(&d.spec, &chunks, 0, &mut ov);
    info.label(if canonical { "canonical stream read" } else { "over-coded stream read" });
    let mut dec = e2f(
        "LasZipDecompressor::new",
        laz::LasZipDecompressor::new(Cursor::new(&stream[..]), d.spec.vlr()),
    )?;
    let mut out = vec![0xA5u8; d.points.len()];
    e2f("decompress_many of a conforming stream", dec.decompress_many(&mut out))?;
    info.checks += d.n as u64;
    expect_points(
        if canonical { "reading a conforming stream" } else { "reading a conforming over-coded stream" },
        &d.spec,
        &d.points,
        &out,
    )
}

pub fn kinds(spec: &Spec) -> String {
    spec.items
        .iter()
        .map(|i| {
            let n = match i.kind {
                Kind::Byte(_) => "Byte".to_string(),
                Kind::Byte14(_) => "Byte14".to_string(),
                k => format!("{k:?}"),
            };
            format!("{n}v{}", i.version)
        })
        .collect::<Vec<_>>()
        .join(",")
}

/// Which layer of a layered chunk holds byte `k`.
fn layer_of(spec: &Spec, chunk: &[u8], k: usize) -> String {
    if !spec.layered() {
        return String::new();
    }
    let rs = spec.record_size();
    let mut names: Vec<String> = vec![];
    for it in &spec.items {
        match it.kind {
            Kind::Point14 => names.extend(
                ["xy", "z", "class", "flags", "intensity", "angle", "user", "psid", "gps"].map(String::from),
            ),
            Kind::RgbNir14 => names.extend(["rgb", "nir"].map(String::from)),
            Kind::Byte14(n) => names.extend((0..n).map(|i| format!("byte{i}"))),
            k => names.push(format!("{k:?}")),
        }
    }
    let n = names.len();
    let sizes: Vec<usize> = (0..n)
        .map(|i| {
            let o = rs + 4 + 4 * i;
            u32::from_le_bytes(chunk[o..o + 4].try_into().unwrap()) as usize
        })
        .collect();
    let mut at = rs + 4 + 4 * n;
    if k < at {
        return format!(", in the layer sizes {:?}", names.iter().zip(&sizes).collect::<Vec<_>>());
    }
    for (name, sz) in names.iter().zip(&sizes) {
        if k < at + sz {
            return format!(", in layer {name}");
        }
        at += sz;
    }
    String::new()
}
