//! C07 Chunk table and chunk boundaries.
use super::util::*;
use super::writers::*;
use super::Prop;
use crate::engine::*;
use crate::io::{Disk, Plan};
use crate::mutate::WEIRD32;
use crate::refc::{self, Over};
use crate::spec::*;
use laz::laszip::{ChunkTable, ChunkTableEntry};
use std::io::Cursor;

pub static PROP: Prop = Prop {
    id: "C07",
    name: "chunk table and chunk boundaries",
    f: case,
    quick: 40_000,
    thorough: 1_300_000,
    rule: "a stream with at least 2 chunks, or a table with at least 2 different entries",
    assumptions: &["byte counts are below 2^32, the most the format can store"],
};

fn case(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    if s.chance(2, 5) {
        table(s, info)
    } else {
        let threads = gen_threads(s);
        let mut r = Ok(());
        pool(threads).install(|| r = stream(s, info, tier));
        r
    }
}

/// finished streams
fn stream(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let mut o = DataOpts {
        small: 60,
        medium: 200,
        large: if tier == Tier::Quick { 700 } else { 5000 },
        giant: 2500,
        chunky: true,
        ..Default::default()
    };
    o.spec.max_chunk = 40;
    let d = gen_data(s, &o);
    d.label(info);
    info.digest = d.digest();
    let rs = d.rs();
    let w = pick_writer(s, &d);
    info.label(format!("{w:?}"));
    info.desc = format!("{w:?} {}", d.desc());
    info.nontrivial = d.chunks.len() >= 2;
    let start = *s.pick(&[0usize, 1, 375, 5000]);
    let mut out = Cursor::new(vec![0xA5u8; start]);
    out.set_position(start as u64);
    write_stream(s, w, &mut out, &d)?;
    let out = out.into_inner();

    let off = i64::from_le_bytes(out[start..start + 8].try_into().unwrap());
    if off < start as i64 + 8 || off as usize > out.len() {
        fail!(format!("offset|{w:?}"), "the offset field is {off} in a file of {} bytes ({})", out.len(), info.desc);
    }
    let off = off as usize;
    let Some((t, used)) = refc::read_table(d.spec.variable(), d.spec.chunk_size, &out[off..]) else {
        fail!(format!("table unreadable|{w:?}"), "there is no chunk table at {off} ({})", info.desc);
    };
    if off + used != out.len() {
        fail!(
            format!("table does not end the stream|{w:?}"),
            "the table takes {used} bytes at {off} of {} ({})",
            out.len(),
            info.desc
        );
    }
    let counts: Vec<usize> = t.iter().map(|e| e.0 as usize).collect();
    let want: Vec<usize> = if d.spec.variable() {
        d.chunks.clone()
    } else {
        vec![d.spec.chunk_size as usize; d.chunks.len()]
    };
    info.checks += want.len() as u64 + 1;
    if counts != want {
        fail!(
            format!("point counts of the table|{w:?}"),
            "the table has the point counts {counts:?}, expected {want:?} ({})",
            info.desc
        );
    }
    let sum: u64 = t.iter().map(|e| e.1 as u64).sum();
    if start as u64 + 8 + sum != off as u64 {
        fail!(
            format!("byte counts do not tile the chunks|{w:?}"),
            "byte counts {:?} sum to {sum}, the chunks take {} bytes ({})",
            t.iter().map(|e| e.1).collect::<Vec<_>>(),
            off - start - 8,
            info.desc
        );
    }
    // each entry is one chunk
    let mut at = start + 8;
    for (i, (e, p)) in t.iter().zip(d.chunk_slices()).enumerate() {
        let bytes = &out[at..at + e.1 as usize];
        at += e.1 as usize;
        let want = refc::chunk(&d.spec, p, &mut Over(None));
        if bytes != &want[..] {
            let layered = d.spec.layered() && bytes.len() >= rs + 4;
            fail!(
                format!("chunk extent|{w:?}"),
                "entry {i} designates {} bytes that are not the {} bytes of the chunk of points expected there{} ({})",
                bytes.len(),
                want.len(),
                if layered {
                    format!(", its header says {} points of {}", u32::from_le_bytes(bytes[rs..rs + 4].try_into().unwrap()), p.len() / rs)
                } else {
                    String::new()
                },
                info.desc
            );
        }
        info.checks += 1;
    }
    // ChunkTable::read_from agrees and leaves the source at the first chunk
    let mut src = Cursor::new(&out);
    src.set_position(start as u64);
    let lt = e2f("ChunkTable::read_from", ChunkTable::read_from(&mut src, &d.spec.vlr()))?;
    if src.position() != start as u64 + 8 {
        fail!("position after read_from", "the source is left at {} instead of {}", src.position(), start + 8);
    }
    same_entries("ChunkTable::read_from", &t, &lt, info)
}

fn same_entries(what: &str, want: &[(u32, u32)], got: &ChunkTable, info: &mut Info) -> CaseResult {
    info.checks += want.len() as u64;
    let g: Vec<(u64, u64)> = got.as_ref().iter().map(|e| (e.point_count, e.byte_count)).collect();
    let w: Vec<(u64, u64)> = want.iter().map(|e| (e.0 as u64, e.1 as u64)).collect();
    if g != w {
        let k = g.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
        fail!(
            format!("table entries|{what}"),
            "{what}: {} entries, expected {}; entry {k} is {:?}, expected {:?}",
            g.len(),
            w.len(),
            g.get(k),
            w.get(k)
        );
    }
    Ok(())
}

/// any table
fn table(s: &mut Src, info: &mut Info) -> CaseResult {
    info.label("table");
    let variable = s.chance(1, 2);
    let chunk_size = if variable {
        VARIABLE
    } else {
        match s.draw(3) {
            0 => 1 + s.draw(100) as u32,
            1 => 50_000,
            _ => *s.pick(&[0x7FFF_FFFFu32, 0x8000_0000, 0xFFFF_FFFE]),
        }
    };
    let spec = Spec {
        compressor: 2 + s.draw(2) as u16,
        chunk_size,
        items: vec![Item {
            kind: Kind::Point10,
            version: 2,
        }],
    };
    let spec = if spec.compressor == 3 {
        Spec {
            items: format_items(6, 3, 0),
            ..spec
        }
    } else {
        spec
    };
    let vlr = spec.vlr();
    let n = match s.weighted(&[100, 60, 20, 1]) {
        3 => s.usize(65_500, 140_000),
        0 => s.usize(0, 6),
        1 => s.usize(0, 60),
        _ => s.usize(0, 12_000),
    };
    let style = s.draw(4);
    let mut f = s.fork();
    let mut v = |last: u32| -> u32 {
        match style {
            0 => f.draw(3000) as u32,
            1 => {
                if f.chance(1, 3) {
                    *f.pick(WEIRD32)
                } else {
                    f.u64() as u32
                }
            }
            2 => last.wrapping_add(f.draw(5) as u32).wrapping_sub(2),
            _ => match f.draw(4) {
                0 => last,
                1 => 1u32 << f.draw(32),
                2 => (1u64 << f.range(1, 32)).wrapping_sub(1) as u32,
                _ => f.draw(1000) as u32,
            },
        }
    };
    let mut entries: Vec<(u32, u32)> = vec![];
    let mut last = (0, 0);
    for _ in 0..n {
        last = (if variable { v(last.0) } else { chunk_size }, v(last.1));
        entries.push(last);
    }
    info.desc = format!("table of {n} entries, style {style}, variable {variable}");
    let want = refc::table(variable, &entries);
    info.digest = hash_bytes(&want);
    info.nontrivial = n >= 2 && entries.iter().any(|e| *e != entries[0]);
    if entries.iter().any(|e| e.0 >= 1 << 31 || e.1 >= 1 << 31) {
        info.label("counts above 2^31");
    }

    // built through the API
    let mut t = if s.chance(1, 2) {
        ChunkTable::default()
    } else {
        ChunkTable::with_capacity(s.usize(0, 10))
    };
    let e = |e: &(u32, u32)| ChunkTableEntry {
        point_count: e.0 as u64,
        byte_count: e.1 as u64,
    };
    let mut at = 0;
    while at < n {
        match s.draw(4) {
            0 | 1 => {
                t.push(e(&entries[at]));
                at += 1;
            }
            2 => {
                let k = s.usize(0, n - at);
                let mut o = ChunkTable::default();
                entries[at..at + k].iter().for_each(|x| o.push(e(x)));
                t.extend(&o);
                at += k;
            }
            _ => {
                let k = s.usize(0, n - at).max(n / 3).min(n - at);
                entries[at..at + k].iter().for_each(|x| t.push(e(x)));
                at += k;
                if s.chance(1, 2) {
                    let back = s.usize(0, at.min(3));
                    for _ in 0..back {
                        let p = t.pop();
                        at -= 1;
                        if p.map(|p| (p.point_count, p.byte_count)) != Some((entries[at].0 as u64, entries[at].1 as u64)) {
                            fail!("pop", "pop returned {p:?}, expected entry {at}");
                        }
                    }
                } else {
                    let keep = at - s.usize(0, at.min(3));
                    t.truncate(keep);
                    at = keep;
                }
            }
        }
    }
    same_entries("built", &entries, &t, info)?;
    if t.len() != n || t.is_empty() != (n == 0) || (&t).into_iter().count() != n {
        fail!("len", "len/is_empty/into_iter of a table of {n} entries: {} {}", t.len(), t.is_empty());
    }
    if n > 0 {
        let k = s.usize(0, n - 1);
        if t[k].byte_count != entries[k].1 as u64 || t[..k].len() != k {
            fail!("index", "entry {k} through Index differs");
        }
    }
    let mut bytes = vec![];
    e2f("write_to", t.write_to(&mut bytes, &vlr))?;
    info.checks += 1;
    if bytes != want {
        let k = bytes.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(bytes.len().min(want.len()));
        fail!(
            "table bytes differ from the LASzip format",
            "{} bytes written, {} expected, first difference at {k} ({})",
            bytes.len(),
            want.len(),
            info.desc
        );
    }
    // read back, placed somewhere in a file
    let start = *s.pick(&[0usize, 3, 400]);
    let gap = s.usize(0, 30);
    let mut file = vec![0x5Au8; start];
    let end_style = s.chance(1, 4);
    let tpos = (start + 8 + gap) as i64;
    file.extend(if end_style {
        (-1i64).to_le_bytes()
    } else {
        tpos.to_le_bytes()
    });
    file.extend(vec![0x77u8; gap]);
    file.extend(&bytes);
    if end_style {
        // a position at the end must be after the start of the data
        file.extend(tpos.to_le_bytes());
    } else if s.chance(1, 2) {
        file.extend([0xFF; 9]);
    }
    let mut src = Disk::with(
        file,
        Plan {
            jitter: if s.chance(1, 3) { Some(Rng::new(s.u64())) } else { None },
            interrupt: 10,
            ..Default::default()
        },
    );
    src.pos = start as u64;
    let back = e2f("ChunkTable::read_from", ChunkTable::read_from(&mut src, &vlr))?;
    if src.pos != start as u64 + 8 {
        fail!("position after read_from", "the source is left at {} instead of {}", src.pos, start + 8);
    }
    same_entries("read back", &entries, &back, info)?;
    src.pos = tpos as u64;
    let raw = e2f("ChunkTable::read", ChunkTable::read(&mut src, variable))?;
    let stored: Vec<(u32, u32)> = entries.iter().map(|e| (if variable { e.0 } else { 0 }, e.1)).collect();
    if src.pos != tpos as u64 + bytes.len() as u64 && n > 0 {
        // the decoder may not need the last bytes; it must not need more
        if src.pos > tpos as u64 + bytes.len() as u64 {
            fail!("reads past the table", "reading the table stops at {} of {}", src.pos, tpos as usize + bytes.len());
        }
    }
    same_entries("ChunkTable::read", &stored, &raw, info)
}
