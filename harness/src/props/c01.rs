//! C01 Lossless round trip.
use super::util::*;
use super::Prop;
use crate::engine::*;
use crate::spec::*;
use std::io::Cursor;

pub static PROP: Prop = Prop {
    id: "C01",
    name: "lossless round trip",
    f: case,
    quick: 45_000,
    thorough: 2_000_000,
    rule: "at least 2 points, at least one record different from its predecessor",
    assumptions: &[],
};

fn case(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let o = DataOpts {
        large: if tier == Tier::Quick { 2500 } else { 20000 },
        spec: SpecOpts { max_chunk: 3000, ..Default::default() },
        giant: 800,
        ..Default::default()
    };
    let d = gen_data(s, &o);
    d.label(info);
    info.desc = d.desc();
    info.nontrivial = d.n >= 2 && d.changes() > 0;
    info.digest = d.digest();

    let bytes = compress_seq(&d)?;
    let mut dec = e2f(
        "LasZipDecompressor::new",
        laz::LasZipDecompressor::new(Cursor::new(&bytes[..]), d.spec.vlr()),
    )?;
    let mut out = vec![0xA5u8; d.points.len()];
    e2f("decompress_many", dec.decompress_many(&mut out))?;
    info.checks += d.n as u64;
    expect_points("round trip", &d.spec, &d.points, &out)
}
